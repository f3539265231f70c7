------------------------------- MODULE SecApi -------------------------------
(***************************************************************************)
(* The secure-application interface: sessions, keys and their rights,      *)
(* cipher and MAC contexts, protected (SVP) buffers and exported blobs.    *)
(*                                                                         *)
(* The state `st` is one record.  A call is a record `a` whose field `op`  *)
(* names it; a.s is the session it is made on, a.u the application that    *)
(* makes it.  For every call the specification gives                       *)
(*    Fails(st, a)  the set of reasons for which it must be refused        *)
(*                  ({} = it must succeed), and                            *)
(*    Eff(st, a)    the state after a successful call.                     *)
(* A refused call changes nothing (except that a failed verification at    *)
(* the end of a stream leaves that one context good for release only).     *)
(*                                                                         *)
(* Objects are named by the order of their creation (1, 2, ...); the       *)
(* implementation's handle numbers are bound to these names by the         *)
(* conformance driver and are modelled on their own in Store.tla.          *)
(* Key values are terms: two keys have equal values iff their terms are    *)
(* equal; the driver evaluates the terms with an independent               *)
(* implementation of the algorithms.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slots            \* capacity of every table of a session, and number of sessions

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
F(c, tag) == IF c THEN {} ELSE {tag}

---------------------------------------------------------------------------
(* Rights                                                                  *)
Ku   == {"X", "D", "W", "E", "C", "S"}     \* eXchange, Derive, unWrap, Encrypt, deCrypt, Sign
OutF == {"au", "ac", "du", "d14", "d22", "dt", "so"}
AllFlags == Ku \cup OutF \cup {"ca"}
(* r = [f: flags, c: child usage flags, nb, na: validity window, ta: list] *)

TaLists == {"all", "none", "u1", "u2", "u1last", "mix12", "allmid", "near1"}
TaOk(r, u) == CASE r.ta \in {"all", "allmid"} -> TRUE
               [] r.ta \in {"u1", "u1last"}   -> u = 1
               [] r.ta = "u2"                 -> u = 2
               [] r.ta = "mix12"              -> u \in {1, 2}
               [] OTHER                       -> FALSE
TimeOk(r, now) == r.nb <= now /\ now < r.na
OutOk(r, o) == /\ o.poll
               /\ "so" \in r.f \/ o.svp
               /\ "au"  \in r.f \/ o.au = 0
               /\ "ac"  \in r.f \/ o.ac = 0
               /\ "du"  \in r.f \/ o.du = 0
               /\ "d14" \in r.f \/ o.d14 = 0
               /\ "d22" \in r.f \/ o.d22 = 0

(* What remains of the rights asked for a key made with parent rights p.   *)
Restrict(r, p) ==
  IF (p.f \cap (Ku \ {"W"})) # {} \/ p.c = {}
  THEN [r EXCEPT !.f = @ \ (OutF \ p.f)]
  ELSE [r EXCEPT !.f = @ \ (Ku \ p.c)]

RootRights == [f |-> AllFlags, c |-> {}, nb |-> 0, na |-> 5000, ta |-> "all"]

---------------------------------------------------------------------------
(* State                                                                   *)
InitOuts == [svp |-> TRUE, poll |-> TRUE, au |-> 0, ac |-> 0, du |-> 0, d14 |-> 0, d22 |-> 0]
InitSt == [now |-> 100, outs |-> InitOuts, ses |-> <<>>, sf |-> 0, keys |-> <<>>, cip |-> <<>>, mac |-> <<>>, svp |-> <<>>, blob |-> <<>>]

LiveSes(st) == {s \in DOMAIN st.ses : st.ses[s].live}
LiveIn(tab, s) == {i \in DOMAIN tab : tab[i].live /\ tab[i].s = s}
Room(tab, fill, s) == Slots - fill - Cardinality(LiveIn(tab, s))
KeyRoom(st, s) == Room(st.keys, st.ses[s].fk, s)
CipRoom(st, s) == Room(st.cip, st.ses[s].fc, s)
MacRoom(st, s) == Room(st.mac, st.ses[s].fm, s)
SvpRoom(st, s) == Room(st.svp, st.ses[s].fs, s)

CallerOk(st, a) == a.s \in DOMAIN st.ses /\ st.ses[a.s].live /\ st.ses[a.s].u = a.u
Here(tab, i, a) == i \in DOMAIN tab /\ tab[i].live /\ tab[i].s = a.s /\ tab[i].u = a.u

Loadable(st, k, u) == LET r == st.keys[k].r IN TaOk(r, u) /\ TimeOk(r, st.now) /\ OutOk(r, st.outs)

---------------------------------------------------------------------------
(* Key kinds                                                               *)
PCurves == {"p192", "p224", "p256", "p384", "p521"}
EdCurves == {"ed25519", "ed448"}
XCurves == {"x25519", "x448"}
Curves == PCurves \cup EdCurves \cup XCurves
CurveSize(cv) == CASE cv = "p192" -> 24 [] cv = "p224" -> 28 [] cv = "p256" -> 32 [] cv = "p384" -> 48 [] cv = "p521" -> 66
                   [] cv = "ed25519" -> 32 [] cv = "x25519" -> 32 [] cv = "ed448" -> 57 [] cv = "x448" -> 56 [] OTHER -> 0
RsaSizes == {128, 256, 384, 512}
DgSize(dg) == CASE dg = "sha1" -> 20 [] dg = "sha256" -> 32 [] dg = "sha384" -> 48 [] dg = "sha512" -> 64 [] OTHER -> 0
Digests == {"sha1", "sha256", "sha384", "sha512"}

IsSym(k) == k.t = "sym"
IsAes(k) == k.t = "sym" /\ k.n \in {16, 32}
IsCha(k) == k.t = "sym" /\ k.n = 32
IsRsa(k) == k.t = "rsa"
IsEc(k)  == k.t = "ec"
IsP(k)   == k.t = "ec" /\ k.cv \in PCurves
IsDh(k)  == k.t = "dh"

AesAlgs == {"ecb", "ecbp", "cbc", "cbcp", "ctr", "gcm"}
SymAlgs == AesAlgs \cup {"cha", "poly"}
AsymAlgs == {"rsap", "rsao", "elg"}
BlockAlgs == {"ecb", "ecbp", "cbc", "cbcp"}
PadAlgs == {"ecbp", "cbcp"}
AeadAlgs == {"gcm", "poly"}
AlgKeyOk(alg, k) == CASE alg \in AesAlgs -> IsAes(k)
                      [] alg \in {"cha", "poly"} -> IsCha(k)
                      [] alg \in {"rsap", "rsao"} -> IsRsa(k)
                      [] alg = "elg" -> IsP(k)
                      [] OTHER -> FALSE
OaepOk(n, dg) == n >= 2 * DgSize(dg) + 2

---------------------------------------------------------------------------
(* Refusal conditions                                                      *)
UseFails(st, a, k, flag) ==      \* using key k for an operation that needs `flag` ("" = none)
  IF ~Here(st.keys, k, a) THEN {"handle"}
  ELSE F(Loadable(st, k, a.u), "rights") \cup F(flag = "" \/ flag \in st.keys[k].r.f, "rights")

ModeFlag(m) == IF m = "enc" THEN "E" ELSE "C"

SizeOk(t, n, cv) == CASE t = "sym" -> n >= 16 /\ n <= 512
                      [] t = "ec" -> cv \in Curves /\ n = CurveSize(cv)
                      [] t = "rsa" -> n \in RsaSizes
                      [] t = "dh" -> n >= 64 /\ n <= 512
                      [] OTHER -> FALSE

KimportFails(st, a) ==
  F(a.bad = "", "fmt") \cup F(SizeOk(a.t, a.n, a.cv), "arg") \cup F(KeyRoom(st, a.s) >= 1, "cap")

KgenFails(st, a) ==
  F(a.bad = "", "arg") \cup F(SizeOk(a.t, a.n, a.cv), "arg") \cup F(KeyRoom(st, a.s) >= 1, "cap")

DeriveFails(st, a) ==
  F(KeyRoom(st, a.s) >= 1, "cap") \cup F(a.bad = "", "arg") \cup
  CASE a.alg \in {"ladder", "cladder"} -> F(a.n = 16, "arg")
    [] a.alg \in {"hkdf", "concat", "x963"} ->
         LET u == UseFails(st, a, a.k, "D") IN
         u \cup F(a.n >= 16 /\ a.n <= 512, "arg")
           \cup (IF "handle" \in u THEN {} ELSE F(IsSym(st.keys[a.k]), "kind"))
    [] a.alg = "kcmac" ->
         LET u == UseFails(st, a, a.k, "D") IN
         u \cup F(a.ctr \in 1..4 /\ a.n % 16 = 0 /\ a.n >= 16 /\ (a.n \div 16) <= 5 - a.ctr, "arg")
           \cup (IF "handle" \in u THEN {} ELSE F(IsAes(st.keys[a.k]), "kind"))
    [] a.alg = "nflx" ->
         LET u == UseFails(st, a, a.k, "D")  v == UseFails(st, a, a.k2, "D") IN
         u \cup v \cup (IF "handle" \in u THEN {} ELSE F(IsSym(st.keys[a.k]) /\ st.keys[a.k].n = 16, "kind"))
                  \cup (IF "handle" \in v THEN {} ELSE F(IsSym(st.keys[a.k2]) /\ st.keys[a.k2].n = 32, "kind"))
    [] OTHER -> {"arg"}

XchgFails(st, a) ==
  F(KeyRoom(st, a.s) >= (IF a.alg = "xnflx" THEN 3 ELSE 1), "cap") \cup F(a.bad = "", "arg") \cup
  LET u == UseFails(st, a, a.k, "X") IN
  u \cup (IF "handle" \in u THEN {} ELSE
            CASE a.alg = "xdh"  -> F(IsDh(st.keys[a.k]), "kind") \cup F(st.keys[a.k].n >= 16, "kind")
              [] a.alg = "xecdh" -> F(IsEc(st.keys[a.k]) /\ st.keys[a.k].cv \notin EdCurves, "kind")
              [] a.alg = "xnflx" -> F(IsDh(st.keys[a.k]), "kind") \cup F(st.keys[a.k].n >= 16, "kind")
              [] OTHER -> {"arg"})
    \cup (IF a.alg # "xnflx" THEN {} ELSE
            LET v == UseFails(st, a, a.k2, "D") IN v \cup (IF "handle" \in v THEN {} ELSE F(IsSym(st.keys[a.k2]) /\ st.keys[a.k2].n = 16, "kind")))

(* a.alg: cipher; a.t/a.n/a.cv: content; a.bad: what is wrong ("" nothing) *)
UnwrapFails(st, a) ==
  LET u == UseFails(st, a, a.k, "W") IN
  F(KeyRoom(st, a.s) >= 1, "cap") \cup F(a.bad = "", "fmt") \cup u \cup
  (IF "handle" \in u THEN {} ELSE
     F(AlgKeyOk(a.alg, st.keys[a.k]), "kind")
     \cup F(SizeOk(a.t, a.n, a.cv), "fmt")
     \cup F(a.alg \in SymAlgs \/ a.t = "sym", "kind")
     \cup F(a.t \in {"sym", "ec", "rsa"}, "kind")
     \cup F(a.alg \notin {"ecb", "cbc"} \/ a.n % 16 = 0 \/ a.t # "sym", "fmt")
     \cup (CASE a.alg = "rsap" -> F(a.n <= st.keys[a.k].n - 11, "fmt")
             [] a.alg = "rsao" -> F(OaepOk(st.keys[a.k].n, a.dg), "fmt") \cup F(a.n <= st.keys[a.k].n - 2 * DgSize(a.dg) - 2, "fmt")
             [] a.alg = "elg" -> F(a.off + a.n <= st.keys[a.k].n, "fmt")
             [] OTHER -> {}))

CinitFails(st, a) ==
  LET u == UseFails(st, a, a.k, ModeFlag(a.m)) IN
  u \cup F(CipRoom(st, a.s) >= 1, "cap") \cup F(a.bad = "", "arg") \cup F(a.alg \in SymAlgs \/ a.m = "dec", "arg")
    \cup (IF "handle" \in u THEN {} ELSE F(AlgKeyOk(a.alg, st.keys[a.k]), "kind"))

(* data in / out: a.ib, a.ob = 0 for clear memory or the SVP buffer; a.io, a.oo offsets there
   (a negative one stands for an offset that far below 2^64).
   a.cd: how many bytes more than required (less, if negative) the clear out buffer offers.        *)
BufFails(st, a, alg, r, req) ==
  F(a.bt = "", "arg")
  \cup F((a.ib = 0 /\ a.ob = 0) \/ alg \notin (AeadAlgs \cup AsymAlgs), "arg")
  \cup F(~(a.ob = 0 /\ a.ib # 0), "arg")
  \cup (IF a.ob = 0 THEN F("so" \in r.f, "rights") \cup F(a.cd >= 0, "small")
        ELSE IF ~Here(st.svp, a.ob, a) THEN {"handle"} ELSE F(a.oo >= 0 /\ a.oo + req <= st.svp[a.ob].n, "range"))
  \cup (IF a.ib = 0 THEN F(~a.short, "range")
        ELSE IF ~Here(st.svp, a.ib, a) THEN {"handle"} ELSE F(a.io >= 0 /\ a.io + a.n <= st.svp[a.ib].n, "range"))

CUse(st, c, a) ==     \* the rights of the context's key, on every use
  LET x == st.cip[c] IN
  F(ModeFlag(x.m) \in x.r.f /\ TimeOk(x.r, st.now) /\ (x.alg \in AsymAlgs \/ OutOk(x.r, st.outs)), "rights")

CprocReq(x, n) == IF x.alg \in AsymAlgs THEN x.kn ELSE n
CprocFails(st, a) ==
  IF ~Here(st.cip, a.c, a) THEN {"handle"} ELSE
  LET x == st.cip[a.c] IN
  IF a.q THEN {} ELSE
  BufFails(st, a, x.alg, x.r, CprocReq(x, a.n)) \cup CUse(st, a.c, a)
  \cup F(x.alg \notin BlockAlgs \/ a.n % 16 = 0, "arg")
  \cup F(x.alg \notin {"rsap", "rsao"} \/ a.n = x.kn, "arg")
  \cup F(x.alg # "elg" \/ a.n = 4 * x.kn, "arg")
  \cup F(x.alg \notin AsymAlgs \/ a.v # "junk", "crypt")
  \cup F(~x.done, "done")

Padded(n) == 16 * ((n \div 16) + 1)
ClastReq(x, n) == IF x.alg \in PadAlgs THEN Padded(n) ELSE n
ClastArgs(x, a) ==     \* conditions that make the call refusable before the stream is touched
  F(x.alg \in {"ecbp", "cbcp", "ctr", "gcm", "cha", "poly"}, "arg")
  \cup (CASE x.alg \in PadAlgs -> F(a.n <= 16 /\ (x.m = "enc" \/ a.n % 16 = 0), "arg")
          [] x.alg \in {"ctr", "cha"} -> F(x.m = "enc" \/ a.n <= 16, "arg")
          [] x.alg = "gcm" -> F(a.n <= 16, "arg") \cup F(a.bad = "" /\ a.tl <= 16 /\ (x.m = "enc" \/ a.tl > 0), "arg")
          [] x.alg = "poly" -> F(a.bad = "" /\ a.tl = 16, "arg")
          [] OTHER -> {})
ClastVerify(x, a) ==   \* verification at the end of the stream
  (IF x.alg \in PadAlgs /\ x.m = "dec"
   THEN F(IF a.n > 0 THEN a.pv = "ok" ELSE x.fed > 0 /\ x.lp = "ok", "verify") ELSE {})
  \cup (IF x.alg \in AeadAlgs /\ x.m = "dec" THEN F(a.tok, "verify") ELSE {})
ClastPre(st, a) ==
  IF ~Here(st.cip, a.c, a) THEN {"handle"} ELSE
  LET x == st.cip[a.c] IN
  IF a.q THEN {} ELSE
  BufFails(st, a, x.alg, x.r, ClastReq(x, a.n)) \cup CUse(st, a.c, a) \cup ClastArgs(x, a) \cup F(~x.done, "done")
ClastFails(st, a) ==
  LET p == ClastPre(st, a) IN IF p # {} \/ a.q THEN p ELSE ClastVerify(st.cip[a.c], a)

CivFails(st, a) ==
  IF ~Here(st.cip, a.c, a) THEN {"handle"}
  ELSE F(st.cip[a.c].alg \in {"cbc", "cbcp", "ctr"} /\ a.il = 16, "arg")

MinitFails(st, a) ==
  LET u == UseFails(st, a, a.k, "S") IN
  u \cup F(MacRoom(st, a.s) >= 1, "cap") \cup F(a.bad = "", "arg")
    \cup (IF "handle" \in u THEN {}
          ELSE F(IF a.alg = "cmac" THEN IsAes(st.keys[a.k]) ELSE IsSym(st.keys[a.k]), "kind"))
MprocFails(st, a) == IF ~Here(st.mac, a.c, a) THEN {"handle"} ELSE F(~st.mac[a.c].done, "done")
MkeyFails(st, a) ==
  (IF ~Here(st.mac, a.c, a) THEN {"handle"} ELSE F(~st.mac[a.c].done, "done"))
  \cup LET u == UseFails(st, a, a.k, "") IN u \cup (IF "handle" \in u THEN {} ELSE F(IsSym(st.keys[a.k]), "kind"))
McompFails(st, a) ==
  IF ~Here(st.mac, a.c, a) THEN {"handle"} ELSE
  IF a.q THEN {} ELSE F(~st.mac[a.c].done, "done") \cup F(a.cd >= 0, "small")
MacLen(x) == IF x.alg = "cmac" THEN 16 ELSE DgSize(x.dg)

SignLen(k) == IF k.t = "ec" THEN 2 * k.n ELSE k.n
SignFails(st, a) ==
  LET u == UseFails(st, a, a.k, "S") IN
  IF "handle" \in u THEN u ELSE
  LET k == st.keys[a.k] IN
  u \cup F(CASE a.alg \in {"pkcs1", "pss"} -> IsRsa(k)
             [] a.alg = "ecdsa" -> IsP(k)
             [] a.alg = "eddsa" -> IsEc(k) /\ k.cv \in EdCurves
             [] OTHER -> FALSE, "kind")
    \cup F(a.bad = "", "arg")
    \cup (IF a.q THEN {} ELSE
            F(a.cd >= 0, "small")
            \cup F(a.alg = "eddsa" \/ ~a.pre \/ a.n = DgSize(a.dg), "arg")
            \cup (IF a.alg = "pss" /\ IsRsa(k) THEN F(a.sl <= k.n - DgSize(a.dg) - 2, "arg") ELSE {}))

(* a.mut: how the blob is tampered with ("" not at all) *)
KexportFails(st, a) ==
  IF ~Here(st.keys, a.k, a) THEN {"handle"}
  ELSE F("ca" \in st.keys[a.k].r.f, "rights") \cup F(a.ml \in {0, 16}, "arg") \cup (IF a.q THEN {} ELSE F(a.cd >= 0, "small"))
KimportxFails(st, a) ==
  F(KeyRoom(st, a.s) >= 1, "cap") \cup F(a.b \in DOMAIN st.blob, "fmt") \cup F(a.mut = "", "fmt")

SvpHere(st, a, b) == F(Here(st.svp, b, a), "handle")
SkcheckFails(st, a) == {"rights"}    \* only system applications may call it; covered by Svp.tla

Fails(st, a) ==
  CASE a.op = "open"  -> F(Cardinality(LiveSes(st)) + st.sf < Slots, "cap")
    [] a.op = "sfill" -> {}
    [] a.op \in {"tick", "outs"} -> {}
    [] OTHER ->
      IF ~CallerOk(st, a) THEN {"session"} ELSE
      CASE a.op = "close" -> {}
        [] a.op = "fill"  -> {}
        [] a.op = "kimport" -> KimportFails(st, a)
        [] a.op = "kgen"   -> KgenFails(st, a)
        [] a.op = "derive" -> DeriveFails(st, a)
        [] a.op = "xchg"   -> XchgFails(st, a)
        [] a.op = "unwrap" -> UnwrapFails(st, a)
        [] a.op = "kexport" -> KexportFails(st, a)
        [] a.op = "kimportx" -> KimportxFails(st, a)
        [] a.op = "krel"   -> F(Here(st.keys, a.k, a), "handle")
        [] a.op = "khdr"   -> F(Here(st.keys, a.k, a), "handle")
        [] a.op = "kdig"   -> LET u == UseFails(st, a, a.k, "") IN
                              u \cup (IF "handle" \in u THEN {} ELSE F(IsSym(st.keys[a.k]), "kind"))
                                \cup (IF a.q THEN {} ELSE F(a.cd >= 0, "small"))
        [] a.op = "kpub"   -> LET u == UseFails(st, a, a.k, "") IN
                              u \cup (IF "handle" \in u THEN {} ELSE F(~IsSym(st.keys[a.k]), "kind"))
                                \cup (IF a.q THEN {} ELSE F(a.cd >= 0, "small"))
        [] a.op = "cinit"  -> CinitFails(st, a)
        [] a.op = "cproc"  -> CprocFails(st, a)
        [] a.op = "clast"  -> ClastFails(st, a)
        [] a.op = "civ"    -> CivFails(st, a)
        [] a.op = "crel"   -> F(Here(st.cip, a.c, a), "handle")
        [] a.op = "minit"  -> MinitFails(st, a)
        [] a.op = "mproc"  -> MprocFails(st, a)
        [] a.op = "mkey"   -> MkeyFails(st, a)
        [] a.op = "mcomp"  -> McompFails(st, a)
        [] a.op = "mrel"   -> F(Here(st.mac, a.c, a), "handle")
        [] a.op = "sign"   -> SignFails(st, a)
        [] a.op = "screate" -> F(SvpRoom(st, a.s) >= 1, "cap") \cup F(a.n > 0, "arg")
        [] a.op = "srel"   -> SvpHere(st, a, a.b)
        [] OTHER -> {"arg"}

(* A size query about something that could not be done anyway may be answered either way (it has no effect). *)
QueryOpen(st, a) ==
  /\ a.op \in {"cproc", "clast", "mcomp"} /\ a.q /\ Fails(st, a) = {}
  /\ \/ a.op = "cproc" /\ CprocFails(st, [a EXCEPT !.q = FALSE]) # {}
     \/ a.op = "clast" /\ ClastFails(st, [a EXCEPT !.q = FALSE]) # {}
     \/ a.op = "mcomp" /\ McompFails(st, [a EXCEPT !.q = FALSE]) # {}

---------------------------------------------------------------------------
(* Values of keys, as terms                                                *)
ValOf(st, a, which) ==
  CASE a.op = "kimport" -> <<"raw", a.t, a.n, a.cv, a.v>>
    [] a.op = "kgen" -> <<"fresh", Len(st.keys) + 1>>
    [] a.op = "derive" ->
         (CASE a.alg \in {"ladder", "cladder"} -> <<a.alg, a.v>>
            [] a.alg = "nflx" -> <<"nflx", st.keys[a.k].val, st.keys[a.k2].val>>
            [] a.alg = "kcmac" -> <<"kcmac", st.keys[a.k].val, a.n, a.il, a.v, a.ctr>>
            [] OTHER -> <<a.alg, st.keys[a.k].val, a.n, a.dg, a.sl, a.il, a.v>>)
    [] a.op = "xchg" -> <<a.alg, which, st.keys[a.k].val, a.v, IF a.alg = "xnflx" THEN st.keys[a.k2].val ELSE <<>> >>
    [] a.op = "unwrap" -> <<"raw", a.t, a.n, a.cv, a.v>>      \* the wrapped content, whatever wrapped it
    [] OTHER -> <<"?">>

NewKey(a, t, n, cv, r, val) == [s |-> a.s, u |-> a.u, live |-> TRUE, t |-> t, n |-> n, cv |-> cv, r |-> r, val |-> val]

(* The keys a successful creating call adds (one, or three for the Netflix exchange). *)
NewKeys(st, a) ==
  CASE a.op \in {"kimport", "kgen"} -> << NewKey(a, a.t, a.n, a.cv, a.r, ValOf(st, a, 0)) >>
    [] a.op = "derive" ->
         IF a.alg \in {"ladder", "cladder"} THEN << NewKey(a, "sym", 16, "", a.r, ValOf(st, a, 0)) >>
         ELSE IF a.alg = "nflx" THEN << NewKey(a, "sym", 16, "", Restrict(a.r, st.keys[a.k].r), ValOf(st, a, 0)) >>
         ELSE << NewKey(a, "sym", a.n, "", Restrict(a.r, st.keys[a.k].r), ValOf(st, a, 0)) >>
    [] a.op = "xchg" ->
         IF a.alg = "xnflx"
         THEN LET p == st.keys[a.k2].r IN
              << NewKey(a, "sym", 16, "", Restrict(a.r, p), ValOf(st, a, "enc")),
                 NewKey(a, "sym", 32, "", Restrict(a.r2, p), ValOf(st, a, "mac")),
                 NewKey(a, "sym", 16, "", Restrict(a.r3, p), ValOf(st, a, "wrap")) >>
         ELSE << NewKey(a, "sym", st.keys[a.k].n, "", Restrict(a.r, st.keys[a.k].r), ValOf(st, a, 0)) >>
    [] a.op = "unwrap" -> << NewKey(a, a.t, a.n, a.cv, Restrict(a.r, st.keys[a.k].r), ValOf(st, a, 0)) >>
    [] a.op = "kimportx" -> LET b == st.blob[a.b] IN << NewKey(a, b.t, b.n, b.cv, b.r, b.val) >>
    [] OTHER -> <<>>

KeyOps == {"kimport", "kgen", "derive", "xchg", "unwrap", "kimportx"}

Kill(tab, i) == [tab EXCEPT ![i].live = FALSE]
KillAll(tab, s) == [i \in DOMAIN tab |-> IF tab[i].s = s THEN [tab[i] EXCEPT !.live = FALSE] ELSE tab[i]]

(* Stream positions of a cipher call: the input bytes it takes are at [i0, i1), the output bytes it gives at [o0, o1). *)
Withheld(x) == IF x.alg \in PadAlgs /\ x.m = "dec" THEN 16 ELSE 0
OutPos(x, fed) == Max(0, fed - Withheld(x))

Eff(st, a) ==
  CASE a.op = "open"  -> [st EXCEPT !.ses = Append(@, [live |-> TRUE, u |-> a.u, fk |-> 0, fc |-> 0, fm |-> 0, fs |-> 0])]
    [] a.op = "sfill" -> [st EXCEPT !.sf = a.n]
    [] a.op = "tick"  -> [st EXCEPT !.now = a.to]
    [] a.op = "outs"  -> [st EXCEPT !.outs = a.o]
    [] a.op = "close" -> [st EXCEPT !.ses[a.s].live = FALSE, !.keys = KillAll(@, a.s), !.cip = KillAll(@, a.s),
                                    !.mac = KillAll(@, a.s), !.svp = KillAll(@, a.s)]
    [] a.op = "fill"  -> [st EXCEPT !.ses[a.s].fk = IF a.kind = "k" THEN a.n ELSE @,
                                    !.ses[a.s].fc = IF a.kind = "c" THEN a.n ELSE @,
                                    !.ses[a.s].fm = IF a.kind = "m" THEN a.n ELSE @,
                                    !.ses[a.s].fs = IF a.kind = "b" THEN a.n ELSE @]
    [] a.op \in KeyOps -> [st EXCEPT !.keys = @ \o NewKeys(st, a)]
    [] a.op = "kexport" -> IF a.q THEN st ELSE
                           LET k == st.keys[a.k] IN
                           [st EXCEPT !.blob = Append(@, [t |-> k.t, n |-> k.n, cv |-> k.cv, r |-> k.r, val |-> k.val])]
    [] a.op = "krel"  -> [st EXCEPT !.keys = Kill(@, a.k)]
    [] a.op = "crel"  -> [st EXCEPT !.cip = Kill(@, a.c)]
    [] a.op = "mrel"  -> [st EXCEPT !.mac = Kill(@, a.c)]
    [] a.op = "srel"  -> [st EXCEPT !.svp = Kill(@, a.b)]
    [] a.op = "screate" -> [st EXCEPT !.svp = Append(@, [s |-> a.s, u |-> a.u, live |-> TRUE, n |-> a.n])]
    [] a.op = "cinit" -> LET k == st.keys[a.k] IN
         [st EXCEPT !.cip = Append(@, [s |-> a.s, u |-> a.u, live |-> TRUE, alg |-> a.alg, m |-> a.m, kn |-> k.n,
                                       r |-> k.r, val |-> k.val, fed |-> 0, lp |-> "bad", done |-> FALSE, broken |-> FALSE])]
    [] a.op = "cproc" -> IF a.q THEN st
                         ELSE [st EXCEPT !.cip[a.c].fed = IF st.cip[a.c].alg \in AsymAlgs THEN 0 ELSE @ + a.n,
                                         !.cip[a.c].lp = IF a.n > 0 THEN a.pv ELSE @]
    [] a.op = "clast" -> IF a.q THEN st
                         ELSE [st EXCEPT !.cip[a.c].fed = @ + a.n, !.cip[a.c].done = TRUE]
    [] a.op = "civ"   -> [st EXCEPT !.cip[a.c].fed = 0, !.cip[a.c].done = FALSE, !.cip[a.c].lp = "bad"]
    [] a.op = "minit" -> [st EXCEPT !.mac = Append(@, [s |-> a.s, u |-> a.u, live |-> TRUE, alg |-> a.alg, dg |-> a.dg,
                                       val |-> st.keys[a.k].val, fed |-> 0, done |-> FALSE])]
    [] a.op = "mproc" -> [st EXCEPT !.mac[a.c].fed = @ + a.n]
    [] a.op = "mkey"  -> [st EXCEPT !.mac[a.c].fed = @ + st.keys[a.k].n]
    [] a.op = "mcomp" -> IF a.q THEN st ELSE [st EXCEPT !.mac[a.c].done = TRUE]
    [] OTHER -> st

(* A call: succeeds with its effect, or is refused without one. *)
Step(st, a) ==
  LET f == Fails(st, a) IN
  IF f = {} THEN Eff(st, a)
  ELSE IF a.op = "clast" /\ "verify" \in f THEN [st EXCEPT !.cip[a.c].broken = TRUE]
  ELSE st
=============================================================================
