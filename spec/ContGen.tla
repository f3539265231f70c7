------------------------------- MODULE ContGen -------------------------------
(* Random key containers for replay (tlc -simulate): a well-formed one, then none, one or two things wrong with it. *)
EXTENDS Container, TLC, Json
CONSTANTS Depth, Pub1, Sort      \* Sort: "typej", "soc" or "both"
VARIABLES now, hist

R(S) == RandomElement(IF now >= 0 THEN S ELSE {})      \* of the level of a state: TLC evaluates constants once
Chance(p) == R(1..100) <= p
Pick(q) == q[R(DOMAIN q)]
Junk == [k |-> "junk"]
BadField(x) == R({Abs, [k |-> "null"], [k |-> "wrong"], Junk, Junk})

K(t, n, f, cu, na, ta) == [t |-> t, n |-> n, cv |-> "", r |-> [f |-> f, c |-> cu, nb |-> 0, na |-> na, ta |-> ta]]
Keys == [x \in {"full", "full32", "out", "child", "childm", "wonly", "lack", "k20", "two", "late", "h32", "h64", "hnos", "hrsa", "hlate", "htwo"} |->
  CASE x = "full" -> K("sym", 16, AllFlags, {}, 5000, "all")          [] x = "full32" -> K("sym", 32, AllFlags, {}, 5000, "all")
    [] x = "out" -> K("sym", 16, {"W", "C", "d22", "so"}, {}, 5000, "all") [] x = "child" -> K("sym", 16, {"W", "so"}, {"C", "S"}, 5000, "all")
    [] x = "childm" -> K("sym", 32, {"W", "E", "dt"}, {"D"}, 5000, "all") [] x = "wonly" -> K("sym", 16, {"W"}, {}, 5000, "all")
    [] x = "lack" -> K("sym", 16, AllFlags \ {"W"}, {}, 5000, "all")    [] x = "k20" -> K("sym", 20, AllFlags, {}, 5000, "all")
    [] x = "two" -> K("sym", 16, AllFlags, {}, 5000, "u2")              [] x = "late" -> K("sym", 16, AllFlags, {}, 200, "all")
    [] x = "h32" -> K("sym", 32, {"S"}, {}, 5000, "all")                [] x = "h64" -> K("sym", 64, AllFlags, {}, 5000, "all")
    [] x = "hnos" -> K("sym", 32, AllFlags \ {"S"}, {}, 5000, "all")    [] x = "hrsa" -> K("rsa", 128, AllFlags, {}, 5000, "all")
    [] x = "hlate" -> K("sym", 32, AllFlags, {}, 200, "all")            [] OTHER -> K("sym", 32, AllFlags, {}, 5000, "u2")]
GoodKc == {"full", "full", "full32", "out", "child", "childm", "wonly"}
GoodKh == {"h32", "h32", "h64", "full"}

Tas == {"none", "u1", "u1", "u2", "u1last", "mix12", "near1", "many", "all"}
Vers == {4, 5}
RandRights(x) == LET n == R(0..5) IN TLCEval([i \in 1..n |-> R(RightCodes)])

TjBase(x) ==
  LET ver == R({1, 2, 3}) alg == IF ver = 1 THEN "aesEcbNone" ELSE R(TjAlgs)
      n == IF alg \in TjNone THEN R({16, 16, 32, 48, 256, 512}) ELSE R({16, 17, 20, 24, 31, 32, 100, 512}) IN
  [id |-> Ok(R({0, 1, 8, 63})), rights |-> Ok(RandRights(0)), usage |-> Ok(R({0, 0, 1, 2})), nb |-> Ok(R({0, 50, 150})), na |-> Ok(R({5000, 5000, 300, 120, 10})), cach |-> Ok(R(BOOLEAN)),
   ta |-> IF Chance(40) THEN Abs ELSE Ok(R(Tas)), ver |-> IF ver = 1 /\ Chance(50) THEN Abs ELSE Ok(ver), alg |-> IF ver = 1 THEN Abs ELSE Ok(alg), len |-> IF ver = 1 THEN Abs ELSE Ok(n), iv |-> IF alg \in TjCbc THEN Ok(R({1, 2})) ELSE Abs,
   key |-> Ok([n |-> n, enc |-> alg])]
(* another valid value of a field *)
TjOther(f, x) ==
  CASE x = "id" -> Ok(R({0, 2, 9, 62}))
    [] x = "rights" -> Ok(RandRights(0)) [] x = "usage" -> Ok(R({0, 1, 2})) [] x \in {"nb", "na"} -> Ok(R({0, 60, 700, 5000}))
    [] x = "cach" -> Ok(~(IsOk(f.cach) /\ f.cach.v)) [] x = "ta" -> R({Abs, Ok("u1"), Ok("mix12"), Ok("all"), Ok("none")})
    [] x = "ver" -> R({Abs, Ok(1), Ok(2), Ok(3)}) [] x = "alg" -> Ok(R(TjAlgs)) [] x = "len" -> Ok(R({16, 32})) [] x = "iv" -> Ok(3)
    [] OTHER -> LET n == R({8, 15, 16, 32, 33, 0, 528, 40}) IN Ok([n |-> IF TjAlg(f) \in TjNone THEN (n \div 8) * 8 ELSE n, enc |-> TjAlg(f)])
Forms == << "nodot", "onedot", "emptyh", "emptyp", "emptym", "extra", "badh", "badp", "badm", "cut", "cut", "lead", "bytes", "zero" >>
Jsons == << "garbage", "array", "string", "number", "null", "empty", "trunc", "trunc", "deep", "deepfield", "utf8", "trail", "ctl" >>
TjCodes == << "flip", "flip", "other", "short", "short", "long", "none", "payloadonly", "flipp", "fliph", "swap" >>
TjFields == TjReq \cup {"ta", "ver", "alg", "len", "iv"}
TjCont(d, z) ==      \* d faults
  LET b == TjBase(z)
      x == [f |-> b, m |-> b, form |-> "", json |-> "", hjson |-> "", code |-> ""]
      Hurt(c) == LET k == R(1..20) IN
        CASE k <= 2 -> [c EXCEPT !.form = Pick(Forms)]
          [] k <= 4 -> [c EXCEPT !.json = Pick(Jsons)]
          [] k <= 7 -> [c EXCEPT !.code = Pick(TjCodes)]
          [] k <= 10 -> LET y == R(TjFields) v == TjOther(c.f, y) IN IF c.m[y].k \in {"ok", "abs"} THEN [c EXCEPT !.f[y] = v] ELSE c       \* altered after it was issued
          [] k <= 12 -> LET y == R(TjFields) v == TjOther(c.f, y) IN [c EXCEPT !.f[y] = v, !.m[y] = v]       \* issued so
          [] OTHER -> LET y == R(TjFields) v == BadField(z) IN [c EXCEPT !.f[y] = v, !.m[y] = v]
      c1 == TLCEval(IF d >= 1 THEN Hurt(x) ELSE x) IN
  TLCEval(IF d >= 2 THEN Hurt(c1) ELSE c1)

SocBase(x) ==
  LET kt == IF Chance(50) THEN R({"AES-128", "AES-256", "HMAC-128", "HMAC-160", "HMAC-256", "CHACHA20-256"}) ELSE R(DOMAIN KeyTypes) ver == R(Vers) us == IF KeyTypes[kt].sub = "hmac" THEN R({1, 3}) ELSE R({1, 2, 3}) IN
  [alg |-> Ok("A128GCM"), ver |-> Ok(ver), rkt |-> IF ver < 5 THEN Abs ELSE R({Abs, Ok("unique"), Ok("common")}), kt |-> Ok(kt), key |-> Ok(kt), iv |-> Ok(1), usage |-> Ok(us), dusage |-> IF us = 2 THEN Ok(R({1, 2, 3})) ELSE Abs,
   ta |-> IF Chance(40) THEN Abs ELSE Ok(R(Tas)), c1 |-> Ok(1), c2 |-> Ok(1), c3 |-> Ok(1)]
SocOther(f, x) ==
  CASE x = "ver" -> Ok(R(Vers)) [] x = "rkt" -> R({Abs, Ok("unique"), Ok("common")}) [] x = "kt" -> Ok(R({"AES-128", "HMAC-128", "AES-256", "HMAC-256", "CHACHA20-256", "ECC-ED25519", "ECC-X25519", "ECC-P256", "HMAC-160"}))
    [] x = "key" -> Ok(R(DOMAIN KeyTypes)) [] x = "usage" -> Ok(R(1..3)) [] x = "dusage" -> Ok(R(1..3)) [] x = "ta" -> R({Abs, Ok("u1"), Ok("u2"), Ok("mix12"), Ok("all"), Ok("none"), Ok("u1last"), Ok("many")})
    [] x = "alg" -> Ok("A128GCM") [] OTHER -> Ok(2)
SocFields == SocReq \cup {"rkt", "dusage", "ta"}
SocCodes == << "flip", "flip", "flipct", "short", "short", "short", "short", "long", "none", "wrongroot" >>
SocCont(d, z) ==
  LET b == SocBase(z)
      x == [f |-> b, m |-> b, form |-> "", json |-> "", hjson |-> "", code |-> ""]
      Hurt(c) == LET k == R(1..24) IN
        CASE k <= 2 -> [c EXCEPT !.form = Pick(Forms)]
          [] k = 3 -> [c EXCEPT !.json = Pick(Jsons)]
          [] k = 4 -> [c EXCEPT !.hjson = Pick(Jsons)]
          [] k <= 7 -> [c EXCEPT !.code = Pick(SocCodes)]
          [] k <= 12 -> LET y == R(SocFields) v == SocOther(c.f, y) IN IF c.m[y].k \in {"ok", "abs"} THEN [c EXCEPT !.f[y] = v] ELSE c
          [] k <= 14 -> LET y == R(SocFields) v == SocOther(c.f, y) IN [c EXCEPT !.f[y] = v, !.m[y] = v]
          [] OTHER -> LET y == R(SocFields) v == BadField(z) IN [c EXCEPT !.f[y] = v, !.m[y] = v]
      c1 == TLCEval(IF d >= 1 THEN Hurt(x) ELSE x) IN
  TLCEval(IF d >= 2 THEN Hurt(c1) ELSE c1)

GenTj(x) == LET d == R({0, 0, 0, 1, 1, 1, 1, 2}) c == TjCont(d, x) bad == Chance(12) kc == IF bad /\ Chance(50) THEN R(DOMAIN Keys \cup {"gone"}) ELSE R(GoodKc) kh == IF bad THEN R(DOMAIN Keys \cup {"gone"}) ELSE R(GoodKh) u == IF Pub1 \/ Chance(85) THEN 1 ELSE 2
                fl == TjFails(Keys, now, c, kc, kh, u) open == TjOpen(c) ok == fl = {} /\ ~open IN
  [op |-> "typej", c |-> c, kc |-> kc, kh |-> kh, u |-> u, why |-> fl, ok |-> IF ok THEN "y" ELSE IF open /\ fl \subseteq {"field", "size"} THEN "any" ELSE "n",
   r |-> IF ok THEN TjRights(Keys, c, kc) ELSE RootRights, key |-> IF ok THEN TjKey(c) ELSE [t |-> "", n |-> 0, cv |-> ""], may |-> ok /\ TaOk(TjRights(Keys, c, kc), u), eff |-> TjAlg(c.f)]
(* Provisioning: a structure with one or two containers and a certificate, stored on the device for another component; the keys are not the caller's. *)
Provs == {"widevine", "playready", "netflix"}
GenProv(ok, par) ==
  LET to == R(Provs \cup {"netflix"}) hole == IF Chance(65) THEN "" ELSE R({"key0", "keyn", "cert0", "certn", "in", "len", "apple", "fairplay", "type", "second", "second0", "par"})
      second == hole \in {"second", "second0"} IN
  [to |-> to, hole |-> hole, ok |-> IF (hole # "" /\ ~(second /\ to # "netflix")) \/ par = "null" THEN "n" ELSE ok,
   why |-> IF hole \in {"apple", "fairplay"} /\ par # "null" THEN "unsupported" ELSE ""]
GenSoc(x) == LET d == R({0, 0, 0, 1, 1, 1, 1, 2}) c == SocCont(d, x) par == IF Chance(6) THEN R({"v1", "v4", "len", "len0", "tiny"}) ELSE R({"null", "v2", "v3", "v3"}) u == IF Pub1 \/ Chance(85) THEN 1 ELSE 2 fl == SocFails(c, par) open == SocOpen(c) ok == fl = {} /\ ~open IN
  [op |-> "soc", c |-> c, par |-> par, u |-> u, why |-> fl, ok |-> IF ok THEN "y" ELSE IF open /\ fl \subseteq {"field"} THEN "any" ELSE "n",
   prov |-> IF ~Pub1 THEN [to |-> ""] ELSE GenProv(IF ok THEN "y" ELSE IF open /\ fl \subseteq {"field"} THEN "any" ELSE "n", par),
   r |-> IF ok THEN SocRights(c) ELSE RootRights, key |-> IF ok THEN [t |-> SocKey(c).t, n |-> SocKey(c).n, cv |-> SocKey(c).cv] ELSE [t |-> "", n |-> 0, cv |-> ""], may |-> ok /\ TaOk(SocRights(c), u), root |-> IF ok THEN Roots(c.f) ELSE ""]

Init == now = 100 /\ hist = << [op |-> "keys", keys |-> Keys] >>
Next ==
  \/ /\ Len(hist) < Depth
     /\ IF Chance(4) /\ now < 250 THEN \E d \in {R({60, 120})} : now' = now + d /\ hist' = Append(hist, [op |-> "tick", now |-> now + d])
        ELSE \E a \in {IF Sort = "typej" \/ (Sort = "both" /\ Chance(50)) THEN TLCEval(GenTj(now)) ELSE TLCEval(GenSoc(now))} : hist' = Append(hist, a) /\ UNCHANGED now
  \/ /\ Len(hist) = Depth
     /\ PrintT(<<"BEH", ToJson(hist)>>)
     /\ hist' = Append(hist, [op |-> "end"])
     /\ UNCHANGED now
=============================================================================
