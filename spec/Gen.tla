-------------------------------- MODULE Gen --------------------------------
(* Random behaviours of SecApi for replay into the implementation (tlc -simulate).  Every step is a call with
   randomly chosen arguments, mostly meaningful ones; `hist` records the calls with the outcome the
   specification prescribes.  At depth Depth the behaviour is printed.                                         *)
EXTENDS SecApi, TLC, Json

CONSTANTS Profile, Depth, NSes, Uuids, Pub1

VARIABLES st, hist

R(S) == RandomElement(S)
Chance(p) == R(1..100) <= p
PickOr(S, T, d) == IF S # {} THEN R(S) ELSE IF T # {} THEN R(T) ELSE d
(* mostly from S, now and then from T *)
Mostly(p, S, T, d) == IF Chance(p) THEN PickOr(S, T, d) ELSE PickOr(T, S, d)

RECURSIVE Pick(_, _, _)
Pick(ws, n, i) == IF n <= ws[i][2] THEN ws[i][1] ELSE Pick(ws, n - ws[i][2], i + 1)
RECURSIVE Sum(_, _)
Sum(ws, i) == IF i = 0 THEN 0 ELSE ws[i][2] + Sum(ws, i - 1)
Weighted(ws) == Pick(ws, R(1..Sum(ws, Len(ws))), 1)

---------------------------------------------------------------------------
(* through the client library the process has one session, opened and closed for it *)
NoSes(ws) == IF Pub1 THEN SelectSeq(ws, LAMBDA w : w[1] \notin {"open", "close", "sfill"}) ELSE ws
OpWeights == NoSes(
  CASE Profile = "rights"  -> << <<"open",3>>, <<"tick",14>>, <<"outs",14>>, <<"kimport",10>>, <<"kgen",1>>, <<"derive",5>>, <<"xchg",3>>, <<"unwrap",4>>,
                                 <<"cinit",10>>, <<"cproc",14>>, <<"clast",5>>, <<"civ",2>>, <<"minit",4>>, <<"mproc",2>>, <<"mkey",4>>, <<"mcomp",2>>, <<"sign",5>>,
                                 <<"kdig",3>>, <<"kpub",3>>, <<"screate",2>>, <<"krel",2>>, <<"kexport",1>>, <<"khdr",1>> >>
    [] Profile = "parent"  -> << <<"open",2>>, <<"kimport",14>>, <<"kgen",2>>, <<"derive",16>>, <<"xchg",12>>, <<"unwrap",16>>, <<"kexport",5>>, <<"kimportx",5>>,
                                 <<"khdr",10>>, <<"krel",3>>, <<"cinit",3>>, <<"cproc",2>>, <<"tick",1>>, <<"outs",1>>, <<"minit",1>> >>
    [] Profile = "iso"     -> << <<"open",10>>, <<"close",6>>, <<"kimport",12>>, <<"kgen",2>>, <<"derive",5>>, <<"xchg",2>>, <<"unwrap",5>>, <<"kexport",4>>, <<"kimportx",4>>,
                                 <<"krel",8>>, <<"khdr",8>>, <<"kdig",6>>, <<"kpub",3>>, <<"cinit",8>>, <<"cproc",8>>, <<"clast",5>>, <<"civ",4>>, <<"crel",6>>,
                                 <<"minit",6>>, <<"mproc",5>>, <<"mkey",4>>, <<"mcomp",5>>, <<"mrel",4>>, <<"sign",4>>, <<"screate",5>>, <<"srel",4>>, <<"sfill",1>> >>
    [] Profile = "handles" -> << <<"open",2>>, <<"close",1>>, <<"fill",9>>, <<"kimport",12>>, <<"derive",5>>, <<"xchg",5>>, <<"unwrap",5>>, <<"kimportx",3>>, <<"kexport",3>>,
                                 <<"krel",12>>, <<"khdr",6>>, <<"kdig",6>>, <<"cinit",10>>, <<"cproc",6>>, <<"clast",3>>, <<"crel",9>>, <<"minit",8>>, <<"mproc",4>>, <<"mcomp",4>>,
                                 <<"mrel",6>>, <<"screate",6>>, <<"srel",5>>, <<"sfill",2>> >>
    [] Profile = "export"  -> << <<"open",5>>, <<"close",2>>, <<"kimport",14>>, <<"kgen",6>>, <<"derive",6>>, <<"xchg",4>>, <<"unwrap",5>>, <<"kexport",25>>, <<"kimportx",28>>,
                                 <<"krel",5>>, <<"khdr",5>>, <<"kdig",5>>, <<"kpub",3>>, <<"cinit",3>>, <<"cproc",3>>, <<"sign",3>>, <<"tick",1>> >>
    [] Profile = "cipher"  -> << <<"kimport",6>>, <<"derive",1>>, <<"cinit",14>>, <<"cproc",45>>, <<"clast",16>>, <<"civ",8>>, <<"crel",3>>, <<"screate",4>>, <<"srel",1>>, <<"krel",2>> >>
    [] Profile = "mac"     -> << <<"kimport",8>>, <<"kgen",2>>, <<"derive",2>>, <<"minit",14>>, <<"mproc",36>>, <<"mkey",14>>, <<"mcomp",18>>, <<"mrel",3>>, <<"krel",3>> >>
    [] Profile = "value"   -> << <<"kimport",16>>, <<"kgen",5>>, <<"derive",26>>, <<"xchg",16>>, <<"unwrap",26>>, <<"kdig",6>>, <<"kpub",3>>, <<"krel",3>>, <<"cinit",3>>, <<"cproc",2>> >>
    [] Profile = "size"    -> << <<"open",1>>, <<"kimport",12>>, <<"kgen",2>>, <<"kexport",12>>, <<"kdig",12>>, <<"kpub",12>>, <<"sign",12>>, <<"cinit",8>>, <<"cproc",14>>, <<"clast",9>>,
                                 <<"minit",6>>, <<"mproc",4>>, <<"mcomp",10>>, <<"screate",1>>, <<"derive",2>> >>
    [] Profile = "report"  -> << <<"open",1>>, <<"kimport",12>>, <<"kgen",6>>, <<"derive",8>>, <<"xchg",5>>, <<"unwrap",8>>, <<"kexport",5>>, <<"kimportx",6>>, <<"khdr",14>>, <<"kdig",14>>, <<"kpub",14>>, <<"krel",3>>, <<"tick",1>> >>
    [] Profile = "sign"    -> << <<"kimport",14>>, <<"kgen",6>>, <<"sign",40>>, <<"cinit",12>>, <<"cproc",20>>, <<"kpub",3>>, <<"unwrap",5>>, <<"krel",2>> >>
    [] OTHER               -> << <<"open",3>>, <<"close",1>>, <<"tick",2>>, <<"outs",2>>, <<"fill",1>>, <<"kimport",12>>, <<"kgen",2>>, <<"derive",7>>, <<"xchg",5>>, <<"unwrap",7>>, <<"kexport",5>>,
                                 <<"kimportx",5>>, <<"krel",3>>, <<"khdr",3>>, <<"kdig",4>>, <<"kpub",3>>, <<"cinit",10>>, <<"cproc",14>>, <<"clast",8>>, <<"civ",2>>, <<"crel",2>>, <<"minit",5>>,
                                 <<"mproc",5>>, <<"mkey",3>>, <<"mcomp",5>>, <<"mrel",2>>, <<"sign",6>>, <<"screate",3>>, <<"srel",2>> >>)

(* Chance (percent) that a step deviates from what would normally be accepted. *)
Dev == CASE Profile \in {"rights", "cipher", "mac"} -> 8
         [] Profile \in {"fail", "size", "handles"} -> 20
         [] OTHER -> 10

Subset(S, p) == {x \in S : Chance(p)}

SmallSub(S, n) == LET k == R(0..n) IN IF k = 0 THEN {} ELSE {R(S) : i \in 1..k}

GenFlags(z) ==
  CASE Profile = "rights" -> (IF Chance(45) THEN AllFlags \ SmallSub(OutF, 3) ELSE IF Chance(50) THEN AllFlags \ SmallSub(AllFlags, 4) ELSE AllFlags)
    [] Profile = "parent" -> (LET x == R(1..100) IN
                              CASE x <= 30 -> {"W"} \cup Subset(OutF, 70) \cup {"ca"}
                                [] x <= 60 -> (Ku \ SmallSub(Ku, 2)) \cup Subset(OutF \cup {"ca"}, 70)
                                [] x <= 80 -> AllFlags \ SmallSub(AllFlags, 3)
                                [] OTHER -> Subset(AllFlags, 60))
    [] OTHER -> (IF Chance(75) THEN AllFlags ELSE AllFlags \ SmallSub(AllFlags, 3))
GenChild(z) ==
  CASE Profile = "parent" -> (LET x == R(1..100) IN CASE x <= 35 -> {} [] x <= 80 -> Subset(Ku, 60) [] OTHER -> Subset(AllFlags, 50))
    [] OTHER -> (IF Chance(70) THEN {} ELSE Subset(AllFlags, 50))
Times == {0, 99, 100, 101, 120, 150}
GenRights(z) ==
  [f |-> GenFlags(0), c |-> GenChild(0),
   nb |-> IF Profile = "rights" /\ Chance(35) THEN R({0, 90, 100, 110, 120}) ELSE IF Chance(92) THEN 0 ELSE R({0, 100, 101, 120}),
   na |-> IF Profile = "rights" /\ Chance(35) THEN R({110, 120, 130, 150}) ELSE IF Chance(92) THEN 5000 ELSE R({100, 101, 150}),
   ta |-> IF (Profile \in {"rights", "iso"} /\ Chance(25)) \/ Chance(5) THEN R(TaLists)
          ELSE IF Chance(70) THEN "all" ELSE R({"all", "allmid", "mix12"})]

---------------------------------------------------------------------------
(* Session and caller *)
GenS == Mostly(96, {s \in LiveSes(st) : s <= 100000}, DOMAIN st.ses, 1)
GenU(s) == IF s \in DOMAIN st.ses /\ (Pub1 \/ Chance(IF Profile = "iso" THEN 88 ELSE 97)) THEN st.ses[s].u ELSE R(Uuids)

MyKeys(s) == LiveIn(st.keys, s)
GoodKeys(s, flag) == {k \in MyKeys(s) : (flag = "" \/ flag \in st.keys[k].r.f)}
Usable(s, u, flag) == {k \in GoodKeys(s, flag) : Loadable(st, k, u)}
(* a key for a purpose: mostly a usable one of this session, sometimes any key ever made *)
UseKey(s, u, flag, P(_)) ==
  IF Chance(100 - Dev) THEN PickOr({k \in Usable(s, u, flag) : P(st.keys[k])}, {k \in GoodKeys(s, flag) : P(st.keys[k])}, PickOr(MyKeys(s), DOMAIN st.keys, 1))
  ELSE PickOr(DOMAIN st.keys, {}, 1)
KeyRec(k) == IF k \in DOMAIN st.keys THEN st.keys[k] ELSE [t |-> "sym", n |-> 16, cv |-> ""]
AlgsFor(key) == {alg \in SymAlgs \cup AsymAlgs : AlgKeyOk(alg, key)}
KeyFor(s, flag, P(_)) ==
  LET good == {k \in GoodKeys(s, flag) : P(st.keys[k])}
      mine == {k \in MyKeys(s) : P(st.keys[k])} IN
  IF Chance(100 - Dev) THEN PickOr(good, mine, PickOr(MyKeys(s), DOMAIN st.keys, 1))
  ELSE PickOr(DOMAIN st.keys, {}, 1)
AnyK(k) == TRUE

SymSizes == {16, 32, 24, 17, 33, 64, 100, 256, 511, 512}
GenSymN(z) == LET x == R(1..100) IN CASE x <= 40 -> 16 [] x <= 75 -> 32 [] x <= 94 -> R(SymSizes) [] x <= 97 -> R(16..512) [] OTHER -> R({1, 15, 513, 520})
GenT(z) == LET x == R(1..100) IN
        IF Profile \in {"cipher", "mac"} THEN (IF x <= 92 THEN "sym" ELSE IF x <= 96 THEN "rsa" ELSE "ec")
        ELSE IF Profile = "sign" THEN (IF x <= 10 THEN "sym" ELSE IF x <= 60 THEN "rsa" ELSE "ec")
        ELSE CASE x <= 68 -> "sym" [] x <= 84 -> "ec" [] OTHER -> "rsa"
GenRsaN(z) == IF Chance(75) THEN 128 ELSE IF Chance(90) THEN 256 ELSE R({384, 512})

KSpec(t) ==
  IF t = "sym" THEN [t |-> t, n |-> GenSymN(0), cv |-> ""]
  ELSE IF t = "rsa" THEN [t |-> t, n |-> GenRsaN(0), cv |-> ""]
  ELSE LET cv == R(Curves) IN [t |-> "ec", n |-> CurveSize(cv), cv |-> cv]

Seed(z) == R(1..1000000)
SmallSeed(z) == R(1..4)

---------------------------------------------------------------------------
GenKimport(s, u, t) ==
  LET k == KSpec(t) IN
  [op |-> "kimport", s |-> s, u |-> u, t |-> k.t, n |-> k.n, cv |-> k.cv,
   v |-> IF k.t = "rsa" THEN R(1..2) ELSE Seed(0), r |-> GenRights(0),
   bad |-> IF Chance(Dev \div 2) THEN (IF k.t = "rsa" THEN R({"id", "trunc", "flip"}) ELSE IF k.t = "ec" THEN R({"id", "trunc", "flip", "othercv"}) ELSE "id") ELSE ""]

GenKgen(s, u) ==
  LET x == R(1..100)
      t == CASE x <= 40 -> "sym" [] x <= 42 -> "rsa" [] x <= 70 -> "ec" [] OTHER -> "dh"
      cv == R(Curves) IN
  [op |-> "kgen", s |-> s, u |-> u, t |-> t,
   n |-> CASE t = "sym" -> GenSymN(0) [] t = "rsa" -> IF Chance(30) THEN R({64, 100, 129, 513}) ELSE 128 [] t = "ec" -> CurveSize(cv) [] OTHER -> IF Chance(94) THEN R({64, 64, 64, 128, 128, 256}) ELSE R({16, 32}),
   cv |-> IF t = "ec" THEN cv ELSE "", v |-> 1, r |-> GenRights(0), bad |-> IF Chance(Dev \div 2) THEN R({"id", "null"}) ELSE ""]

GenDerive(s, u) ==
  LET x == R(1..100)
      key == UseKey(s, u, "D", IsSym)
      q0 == KeyRec(key)
      partners == {k \in Usable(s, u, "D") : IsSym(st.keys[k]) /\ st.keys[k].n = 32}
      alg == CASE x <= 20 -> "hkdf" [] x <= 36 -> "concat" [] x <= 52 -> "x963"
               [] x <= 70 -> (IF IsAes(q0) \/ Chance(20) THEN "kcmac" ELSE "hkdf")
               [] x <= 86 -> (IF (q0.n = 16 /\ partners # {}) \/ Chance(15) THEN "nflx" ELSE IF IsAes(q0) THEN "kcmac" ELSE "x963")
               [] x <= 93 -> "ladder" [] OTHER -> "cladder"
      ctr == IF Chance(94) THEN R(1..4) ELSE R({0, 5, 255})
      n == CASE alg = "kcmac" -> (IF Chance(90) /\ ctr \in 1..4 THEN 16 * R(1..(5 - ctr)) ELSE R({0, 8, 17, 16, 32, 48, 64, 80, 512}))
             [] alg \in {"ladder", "cladder"} -> (IF Chance(94) THEN 16 ELSE R({15, 17}))
             [] OTHER -> (IF Chance(93) THEN R({16, 17, 20, 32, 33, 48, 64, 65, 100, 128, 256, 511, 512}) ELSE R({0, 1, 15, 513, 600})) IN
  [op |-> "derive", s |-> s, u |-> u, alg |-> alg,
   k |-> key, k2 |-> IF alg = "nflx" THEN (IF Chance(90) THEN PickOr(partners, DOMAIN st.keys, 1) ELSE PickOr(DOMAIN st.keys, {}, 1)) ELSE 0,
   n |-> n, dg |-> R(Digests), ctr |-> ctr, sl |-> R({0, 0, 1, 16, 20, 64, 65, 200}), il |-> R({0, 0, 1, 15, 16, 17, 64, 200}), v |-> SmallSeed(0), r |-> GenRights(0),
   bad |-> IF Chance(Dev \div 2) THEN R({"id", "null", "dg"} \ (IF alg \in {"hkdf", "concat", "x963"} THEN {} ELSE {"dg"})) ELSE ""]

GenXchg(s, u) ==
  LET x == R(1..100)
      key == UseKey(s, u, "X", LAMBDA q : IsDh(q) \/ (IsEc(q) /\ q.cv \notin EdCurves))
      kek == UseKey(s, u, "D", LAMBDA q : IsSym(q) /\ (q.n = 16 \/ Chance(5)))
      alg == IF IsDh(KeyRec(key)) THEN (IF x <= 50 /\ IsSym(KeyRec(kek)) THEN "xnflx" ELSE IF x <= 96 THEN "xdh" ELSE "xecdh")
             ELSE IF x <= 94 THEN "xecdh" ELSE R({"xdh", "xnflx"}) IN
  [op |-> "xchg", s |-> s, u |-> u, alg |-> alg,
   k |-> key, k2 |-> IF alg = "xnflx" THEN kek ELSE 0,
   v |-> R(1..9), r |-> GenRights(0), r2 |-> GenRights(0), r3 |-> GenRights(0),
   bad |-> IF Chance(Dev) THEN R({"id", "junk", "curve"}) ELSE ""]

GenUnwrap(s, u) ==
  LET key == UseKey(s, u, "W", LAMBDA q : AlgsFor(q) # {})
      alg == IF Chance(95) THEN PickOr(AlgsFor(KeyRec(key)), SymAlgs, "ecb") ELSE R(SymAlgs \cup AsymAlgs)
      t == IF alg \in SymAlgs /\ Chance(25) THEN R({"ec", "rsa"}) ELSE "sym"
      k == KSpec(t)
      n == IF t # "sym" THEN k.n ELSE IF alg \in {"ecb", "cbc"} THEN R({16, 32, 48, 64, 256, 512}) ELSE IF alg \in AsymAlgs THEN R({16, 20, 24, 32, 48}) ELSE GenSymN(0) IN
  [op |-> "unwrap", s |-> s, u |-> u, alg |-> alg, k |-> key, t |-> t, n |-> n, cv |-> k.cv, v |-> IF t = "rsa" THEN R(1..2) ELSE Seed(0),
   dg |-> R(Digests), mg |-> R(Digests), off |-> IF alg = "elg" THEN R({0, 0, 1, 4, 8}) ELSE 0, al |-> R({0, 0, 1, 16, 33}), r |-> GenRights(0),
   bad |-> IF Chance(Dev) THEN
             R({"id", "null"} \cup (CASE alg \in PadAlgs -> {"pad0", "pad17", "padx", "len"} [] alg \in AeadAlgs -> {"tag", "ct", "aad", "tlen"} [] alg = "rsao" -> {"junk", "len"} [] alg = "rsap" -> {"len"}
                 [] alg = "elg" -> {"len"} [] alg \in {"cbc", "ctr", "cha"} -> {"iv"} [] OTHER -> {"len"}))
           ELSE ""]

GenCd(z) == IF Chance(Dev) THEN R({-1, -1, -8, -1000}) ELSE R({0, 0, 0, 1, 16, 100})
GenKexport(s, u) ==
  [op |-> "kexport", s |-> s, u |-> u, k |-> KeyFor(s, "ca", AnyK), ml |-> IF Chance(6) THEN R({1, 15, 17, 32}) ELSE R({0, 16}), v |-> Seed(0), q |-> Chance(15), cd |-> GenCd(0)]
Muts == {"flip", "trunc", "ext", "mixhead", "mixtail", "swap", "empty", "zero"}
GenKimportx(s, u) ==
  [op |-> "kimportx", s |-> s, u |-> u, b |-> PickOr(DOMAIN st.blob, {}, 1), b2 |-> PickOr(DOMAIN st.blob, {}, 1),
   pos |-> Seed(0), mut |-> IF Profile = "export" /\ Chance(50) THEN R(Muts) ELSE IF Chance(Dev) THEN R(Muts) ELSE ""]

GenCinit(s, u) ==
  LET m0 == R({"enc", "dec"})
      wantasym == Profile = "sign" \/ Chance(15)
      key == UseKey(s, u, ModeFlag(m0), LAMBDA q : AlgsFor(q) # {} /\ (Profile # "sign" \/ ~IsSym(q)) /\ (IsSym(q) \/ wantasym))
      alg == IF Chance(96) THEN PickOr(AlgsFor(KeyRec(key)), SymAlgs, "ecb") ELSE R(SymAlgs \cup AsymAlgs)
      m == IF alg \in AsymAlgs THEN (IF Chance(94) THEN "dec" ELSE "enc") ELSE m0 IN
  [op |-> "cinit", s |-> s, u |-> u, alg |-> alg, m |-> m, k |-> key, v |-> Seed(0),
   wrap |-> R({0, 0, 1, 2, 3}), al |-> R({0, 0, 1, 12, 16, 17, 64}), dg |-> R(Digests), mg |-> R(Digests), ll |-> R({0, 0, 5, 300}),
   bad |-> IF Chance(Dev \div 2) /\ alg \notin {"ecb", "ecbp", "rsap", "elg"} THEN R({"null"} \cup (IF alg # "rsao" THEN {"iv"} ELSE {})) ELSE ""]

CipOk(c) == ~st.cip[c].broken
MyCip(s) == {c \in LiveIn(st.cip, s) : CipOk(c)}
AnyCip == {c \in DOMAIN st.cip : CipOk(c)}
(* a context that is (mostly) still in the middle of its stream *)
GenC(s) == LET open == {c \in MyCip(s) : ~st.cip[c].done} IN
           IF Chance(100 - Dev \div 2) THEN PickOr(open, MyCip(s), PickOr(AnyCip, {}, 1)) ELSE PickOr(AnyCip, {}, 1)
MySvp(s) == LiveIn(st.svp, s)

GenCproc(s, u) ==
  LET c == GenC(s)
      known == c \in DOMAIN st.cip
      alg == IF known THEN st.cip[c].alg ELSE "ecb"
      asym == alg \in AsymAlgs
      kn == IF known THEN st.cip[c].kn ELSE 16
      n == IF asym THEN (IF Chance(94) THEN (IF alg = "elg" THEN 4 * kn ELSE kn) ELSE R({0, 1, kn - 1, kn + 1}))
           ELSE IF alg \in BlockAlgs THEN (IF Chance(94) THEN 16 * R({0, 1, 1, 2, 3, 4, 9}) ELSE R({1, 15, 17, 31}))
           ELSE R({0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 100, 160})
      svp == ~asym /\ alg \notin AeadAlgs /\ MySvp(s) # {} /\ Chance(IF known /\ "so" \notin st.cip[c].r.f THEN 85 ELSE 25)
      devsvp == Chance(1) /\ st.svp # <<>>
      paddec == alg \in PadAlgs /\ known /\ st.cip[c].m = "dec"
      ob == IF svp \/ devsvp THEN PickOr(MySvp(s), DOMAIN st.svp, 0) ELSE 0
      ib == IF (svp \/ devsvp) /\ Chance(50) THEN (IF Chance(20) /\ ~paddec THEN ob ELSE PickOr(MySvp(s) \ {ob}, DOMAIN st.svp \ {ob}, 0)) ELSE IF Chance(1) /\ (DOMAIN st.svp) \ {ob} # {} THEN R((DOMAIN st.svp) \ {ob}) ELSE 0
      on == IF ob \in DOMAIN st.svp THEN st.svp[ob].n ELSE 0
      in == IF ib \in DOMAIN st.svp THEN st.svp[ib].n ELSE 0
      oo == IF ob = 0 THEN R({0, 0, 0, 1, 16, 33}) ELSE IF Chance(85) /\ on >= n THEN R({0, on - n}) ELSE IF Chance(80) THEN R(0..on) ELSE R({on - n + 1, on, on + 1, -1, -n})
      io == IF ib = ob /\ ob # 0 THEN oo ELSE IF ib = 0 THEN R({0, 0, 0, 1, 16, 33}) ELSE IF Chance(85) /\ in >= n THEN R({0, in - n}) ELSE IF Chance(80) THEN R(0..in) ELSE R({in - n + 1, in + 1, -1, -n}) IN
  [op |-> "cproc", s |-> s, u |-> u, c |-> c, n |-> n, q |-> Chance(IF Profile = "size" THEN 20 ELSE 5), cd |-> GenCd(0),
   ip |-> (~asym /\ ib = 0 /\ ob = 0 /\ (alg \notin PadAlgs \/ (known /\ st.cip[c].m = "enc")) /\ Chance(25)),
   ib |-> ib, ob |-> ob, io |-> io, oo |-> oo, bt |-> IF Chance(Dev \div 8) THEN R({"in", "out"}) ELSE "", short |-> Chance(Dev \div 4),
   pv |-> IF Chance(85) THEN "ok" ELSE R({"zero", "big", "incons"}),
   v |-> IF asym THEN (IF alg = "rsao" /\ Chance(15) THEN "junk" ELSE "good") ELSE "", d |-> Seed(0), pl |-> R({0, 1, 16, 20, 40, 61})]

GenClast(s, u) ==
  LET open == {c \in MyCip(s) : ~st.cip[c].done /\ st.cip[c].alg \notin AsymAlgs \cup {"ecb", "cbc"}}
      c == IF open # {} /\ Chance(90) THEN R(open) ELSE GenC(s)
      known == c \in DOMAIN st.cip
      x == IF known THEN st.cip[c] ELSE [alg |-> "ecb", m |-> "enc", r |-> RootRights]
      alg == x.alg
      n == CASE alg \in PadAlgs -> (IF x.m = "enc" THEN (IF Chance(95) THEN R(0..16) ELSE R({17, 32})) ELSE (IF Chance(95) THEN R({16, 16, 16, 0}) ELSE R({1, 15, 17, 32})))
             [] alg = "gcm" -> (IF Chance(95) THEN R(0..16) ELSE R({17, 33}))
             [] alg \in {"ctr", "cha"} -> (IF x.m = "enc" THEN R({0, 1, 15, 16, 17, 40}) ELSE IF Chance(95) THEN R(0..16) ELSE R({17, 40}))
             [] OTHER -> R({0, 1, 15, 16, 17, 40})
      svp == alg \notin AeadAlgs /\ MySvp(s) # {} /\ Chance(IF "so" \notin x.r.f THEN 85 ELSE 20)
      ob == IF svp THEN PickOr(MySvp(s), {}, 0) ELSE 0
      ib == IF svp /\ Chance(40) THEN PickOr(MySvp(s) \ {ob}, {}, 0) ELSE 0
      on == IF ob \in DOMAIN st.svp THEN st.svp[ob].n ELSE 0
      in == IF ib \in DOMAIN st.svp THEN st.svp[ib].n ELSE 0
      req == IF alg \in PadAlgs THEN Padded(n) ELSE n IN
  [op |-> "clast", s |-> s, u |-> u, c |-> c, n |-> n, q |-> Chance(IF Profile = "size" THEN 20 ELSE 4),
   cd |-> IF alg \in PadAlgs /\ x.m = "dec" THEN (IF Chance(Dev) THEN -req ELSE R({0, 16})) ELSE GenCd(0),
   ip |-> (ib = 0 /\ ob = 0 /\ ~(alg \in PadAlgs /\ x.m = "dec") /\ Chance(20)),
   ib |-> ib, ob |-> ob, oo |-> IF ob = 0 THEN R({0, 0, 1, 33}) ELSE IF Chance(85) /\ on >= req THEN R({0, on - req}) ELSE R({on + 1, -1, on - n + 16}),
   io |-> IF ib = 0 THEN R({0, 0, 1, 33}) ELSE IF Chance(90) /\ in >= n THEN R({0, in - n}) ELSE R({in - n + 1, in + 1, -1}),
   bt |-> IF Chance(Dev \div 8) THEN R({"in", "out"}) ELSE "", short |-> (n > 0 /\ Chance(Dev \div 4)),
   pv |-> IF Chance(80) THEN "ok" ELSE R({"zero", "big", "incons"}), tok |-> Chance(80),
   tl |-> IF alg = "poly" THEN (IF Chance(92) THEN 16 ELSE R({0, 12, 15, 17})) ELSE (IF Chance(92) THEN R({16, 16, 12, 13, 4}) ELSE IF x.m = "dec" THEN R({0, 17, 32}) ELSE R({17, 32})),
   bad |-> IF alg \in AeadAlgs /\ Chance(Dev \div 2) THEN R({"null", "nulltag"}) ELSE "", v |-> "", d |-> Seed(0)]

GenCiv(s, u) ==
  LET cs == {c \in MyCip(s) : st.cip[c].alg \in {"cbc", "cbcp", "ctr"}} IN
  [op |-> "civ", s |-> s, u |-> u, c |-> IF Chance(92) THEN PickOr(cs, AnyCip, 1) ELSE PickOr(AnyCip, {}, 1), il |-> IF Chance(94) THEN 16 ELSE R({0, 12, 15, 17}), v |-> Seed(0), wrap |-> R({0, 0, 1, 2, 3})]

GenMinit(s, u) ==
  LET key == UseKey(s, u, "S", IsSym)
      alg == IF IsAes(KeyRec(key)) \/ Chance(5) THEN R({"cmac", "hmac"}) ELSE "hmac" IN
  [op |-> "minit", s |-> s, u |-> u, alg |-> alg, dg |-> R(Digests), k |-> key,
   bad |-> IF alg = "hmac" /\ Chance(Dev \div 2) THEN R({"null", "dg"}) ELSE ""]
MyMac(s) == LiveIn(st.mac, s)
GenM(s) == LET open == {c \in MyMac(s) : ~st.mac[c].done} IN
           IF Chance(100 - Dev \div 2) THEN PickOr(open, MyMac(s), PickOr(DOMAIN st.mac, {}, 1)) ELSE PickOr(DOMAIN st.mac, {}, 1)

SignKinds(k) == IF IsRsa(k) THEN {"pkcs1", "pss"} ELSE IF IsP(k) THEN {"ecdsa"} ELSE IF IsEc(k) /\ k.cv \in EdCurves THEN {"eddsa"} ELSE {}
GenSign(s, u) ==
  LET k == UseKey(s, u, "S", LAMBDA q : SignKinds(q) # {})
      ks == IF k \in DOMAIN st.keys THEN SignKinds(st.keys[k]) ELSE {}
      alg == IF Chance(93) THEN PickOr(ks, {"pkcs1", "ecdsa", "eddsa", "pss"}, "pkcs1") ELSE R({"pkcs1", "ecdsa", "eddsa", "pss"})
      dg == R(Digests)
      pre == alg # "eddsa" /\ Chance(35)
      kn == IF k \in DOMAIN st.keys THEN st.keys[k].n ELSE 128
      mx == kn - DgSize(dg) - 2 IN
  [op |-> "sign", s |-> s, u |-> u, k |-> k, alg |-> alg, dg |-> dg, mg |-> R(Digests), pre |-> pre,
   n |-> IF pre THEN (IF Chance(90) THEN DgSize(dg) ELSE R({0, 19, 33, 47, 65})) ELSE R({0, 1, 20, 55, 64, 127, 200}),
   sl |-> IF Chance(92) THEN PickOr({x \in {0, 1, 20, 32, mx} : x <= mx}, {}, 0) ELSE R({mx + 1, mx + 100, 4000}), q |-> Chance(15), cd |-> GenCd(0), v |-> Seed(0),
   bad |-> IF alg # "eddsa" /\ Chance(Dev \div 2) THEN R({"null", "dg"} \cup (IF alg = "pss" THEN {"mg"} ELSE {})) ELSE ""]

GenOuts(zz) ==
  IF Chance(45) THEN InitOuts ELSE
  LET z(p) == IF Chance(p) THEN R(1..2) ELSE 0
      p == IF Chance(40) THEN 0 ELSE 25 IN
  [svp |-> Chance(75), poll |-> Chance(95), au |-> z(p), ac |-> z(p), du |-> z(p), d14 |-> z(p), d22 |-> z(p)]

GenFill(s, u) ==
  LET kind == R({"k", "k", "c", "m", "b"})
      live == Cardinality(LiveIn(CASE kind = "k" -> st.keys [] kind = "c" -> st.cip [] kind = "m" -> st.mac [] OTHER -> st.svp, s)) IN
  [op |-> "fill", s |-> s, u |-> u, kind |-> kind, n |-> Max(0, Slots - live - R({0, 0, 1, 2, 3, 4, 200}))]

Args(op, s, u) ==
  CASE op = "open"   -> [op |-> "open", s |-> 0, u |-> R(Uuids)]
    [] op = "close"  -> [op |-> "close", s |-> s, u |-> u]
    [] op = "sfill"  -> [op |-> "sfill", s |-> 0, u |-> 0, n |-> IF Chance(50) THEN Max(0, Slots - Cardinality(LiveSes(st)) - R({0, 1, 2})) ELSE 0]
    [] op = "tick"   -> [op |-> "tick", s |-> 0, u |-> 0, to |-> IF Chance(45) THEN 100 ELSE R({50, 89, 90, 99, 100, 101, 109, 110, 111, 119, 120, 121, 129, 130, 149, 150, 300})]
    [] op = "outs"   -> [op |-> "outs", s |-> 0, u |-> 0, o |-> GenOuts(0)]
    [] op = "fill"   -> GenFill(s, u)
    [] op = "kimport" -> GenKimport(s, u, GenT(0))
    [] op = "ksym"   -> GenKimport(s, u, "sym")
    [] op = "kgen"   -> GenKgen(s, u)
    [] op = "derive" -> GenDerive(s, u)
    [] op = "xchg"   -> GenXchg(s, u)
    [] op = "unwrap" -> GenUnwrap(s, u)
    [] op = "kexport" -> GenKexport(s, u)
    [] op = "kimportx" -> GenKimportx(s, u)
    [] op \in {"krel", "khdr"} -> [op |-> op, s |-> s, u |-> u, k |-> KeyFor(s, "", AnyK)]
    [] op = "kdig"   -> [op |-> op, s |-> s, u |-> u, k |-> UseKey(s, u, "", IsSym), dg |-> R(Digests), q |-> Chance(15), cd |-> GenCd(0)]
    [] op = "kpub"   -> [op |-> op, s |-> s, u |-> u, k |-> UseKey(s, u, "", LAMBDA q : ~IsSym(q)), q |-> Chance(15), cd |-> GenCd(0)]
    [] op = "cinit"  -> GenCinit(s, u)
    [] op = "cproc"  -> GenCproc(s, u)
    [] op = "clast"  -> GenClast(s, u)
    [] op = "civ"    -> GenCiv(s, u)
    [] op = "crel"   -> [op |-> op, s |-> s, u |-> u, c |-> PickOr(LiveIn(st.cip, s), DOMAIN st.cip, 1)]
    [] op = "minit"  -> GenMinit(s, u)
    [] op = "mproc"  -> [op |-> op, s |-> s, u |-> u, c |-> GenM(s), n |-> R({0, 1, 15, 16, 17, 32, 63, 64, 65, 128, 200}), d |-> Seed(0)]
    [] op = "mkey"   -> [op |-> op, s |-> s, u |-> u, c |-> GenM(s), k |-> UseKey(s, u, "", IsSym)]
    [] op = "mcomp"  -> [op |-> op, s |-> s, u |-> u, c |-> GenM(s), q |-> Chance(20), cd |-> GenCd(0)]
    [] op = "mrel"   -> [op |-> op, s |-> s, u |-> u, c |-> PickOr(MyMac(s), DOMAIN st.mac, 1)]
    [] op = "sign"   -> GenSign(s, u)
    [] op = "screate" -> [op |-> op, s |-> s, u |-> u, n |-> R({1, 16, 48, 64, 200, 400})]
    [] op = "srel"   -> [op |-> op, s |-> s, u |-> u, b |-> PickOr(MySvp(s), DOMAIN st.svp, 1)]

(* Replace an operation that makes no sense yet by one that prepares for it. *)
Sens1(op, s, u) ==
  LET mine == MyKeys(s) IN
  IF LiveSes(st) = {} \/ (Len(st.ses) < NSes /\ Chance(30)) THEN "open"
  ELSE IF op = "open" /\ Cardinality(LiveSes(st)) >= NSes /\ st.sf = 0 THEN "kimport"
  ELSE IF op \in {"cproc", "clast"} /\ {c \in MyCip(s) : ~st.cip[c].done} = {} /\ Chance(70) THEN (IF mine = {} THEN "kimport" ELSE "cinit")
  ELSE IF op = "civ" /\ {c \in MyCip(s) : st.cip[c].alg \in {"cbc", "cbcp", "ctr"}} = {} THEN (IF mine = {} THEN "ksym" ELSE "cinit")
  ELSE IF op \in {"cproc", "clast", "civ", "crel"} /\ MyCip(s) = {} THEN (IF mine = {} THEN "kimport" ELSE "cinit")
  ELSE IF op \in {"mproc", "mkey", "mcomp", "mrel"} /\ MyMac(s) = {} THEN (IF mine = {} THEN "kimport" ELSE "minit")
  ELSE IF op \in {"derive", "xchg", "unwrap", "kexport", "krel", "khdr", "kdig", "kpub", "cinit", "minit", "sign"} /\ mine = {} THEN "kimport"
  ELSE IF op \in {"derive", "cinit", "minit", "unwrap"} /\ {k \in Usable(s, u, CASE op = "derive" -> "D" [] op = "minit" -> "S" [] op = "unwrap" -> "W" [] OTHER -> "E") : IsSym(st.keys[k]) \/ (op = "cinit" /\ Profile = "sign")} = {} /\ Chance(85) THEN
         (IF ~(st.outs = InitOuts) /\ Chance(30) THEN "outs" ELSE IF st.now # 100 /\ Chance(30) THEN "tick" ELSE IF Profile = "sign" THEN "kimport" ELSE "ksym")
  ELSE IF op \in {"kdig"} /\ {k \in mine : IsSym(st.keys[k])} = {} THEN "ksym"
  ELSE IF op = "kpub" /\ {k \in mine : ~IsSym(st.keys[k])} = {} THEN R({"kgen", "kimport"})
  ELSE IF op = "sign" /\ {k \in mine : SignKinds(st.keys[k]) # {}} = {} THEN R({"kgen", "kimport"})
  ELSE IF op = "xchg" /\ {k \in mine : IsDh(st.keys[k]) \/ IsEc(st.keys[k])} = {} THEN R({"kgen", "kimport"})
  ELSE IF op = "kimportx" /\ st.blob = <<>> THEN (IF mine = {} THEN "kimport" ELSE "kexport")
  ELSE IF op = "srel" /\ MySvp(s) = {} THEN "screate"
  ELSE IF op = "fill" /\ (KeyRoom(st, s) < 1) THEN "krel"
  ELSE op

RECURSIVE Sensible(_, _, _, _)
Sensible(op, s, u, n) == LET o == Sens1(op, s, u) IN IF o = op \/ n = 0 THEN o ELSE Sensible(o, s, u, n - 1)

Pub(k) == [t |-> k.t, n |-> k.n, cv |-> k.cv, r |-> k.r]
Expect(a) ==
  LET f == Fails(st, a)
      good == f = {} IN
  [ok |-> IF QueryOpen(st, a) THEN "any" ELSE IF good THEN "y" ELSE "n", why |-> f,
   xk |-> IF good /\ a.op \in KeyOps THEN [i \in DOMAIN NewKeys(st, a) |-> Pub(NewKeys(st, a)[i])]
          ELSE IF good /\ a.op = "khdr" THEN << Pub(st.keys[a.k]) >> ELSE <<>>,
   xo |-> IF a.op = "cproc" /\ good /\ ~a.q THEN
            LET x == st.cip[a.c] IN << OutPos(x, x.fed), OutPos(x, x.fed + a.n), x.fed >>
          ELSE IF a.op \in {"cproc", "clast"} /\ a.c \in DOMAIN st.cip THEN << OutPos(st.cip[a.c], st.cip[a.c].fed), 0, st.cip[a.c].fed >>
          ELSE <<>>,
   xl |-> IF a.op = "mcomp" /\ a.c \in DOMAIN st.mac THEN MacLen(st.mac[a.c])
          ELSE IF a.op = "sign" /\ a.k \in DOMAIN st.keys THEN SignLen(st.keys[a.k])
          ELSE IF a.op = "clast" /\ a.c \in DOMAIN st.cip THEN ClastReq(st.cip[a.c], a.n)
          ELSE IF a.op = "cproc" /\ a.c \in DOMAIN st.cip THEN CprocReq(st.cip[a.c], a.n)
          ELSE 0]

Init == st = InitSt /\ hist = <<>>

Next ==
  \/ /\ Len(hist) < Depth
     /\ \E s \in {GenS} : \E u \in {GenU(s)} : \E op \in {Sensible(Weighted(OpWeights), s, u, 3)} : \E a \in {Args(op, s, u)} :
          /\ st' = Step(st, a)
          /\ hist' = Append(hist, a @@ Expect(a))
  \/ /\ Len(hist) = Depth
     /\ PrintT(<<"BEH", ToJson(hist)>>)
     /\ hist' = Append(hist, [op |-> "end"])
     /\ UNCHANGED st
=============================================================================
