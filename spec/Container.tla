------------------------------ MODULE Container ------------------------------
(***************************************************************************)
(* Key containers: the signed Type-J container and the device-specific SOC *)
(* container.  A container is described by the values of its fields, as    *)
(* presented (c.f) and as they were when it was issued, that is when its   *)
(* authentication code was computed (c.m).  The specification says which   *)
(* containers are accepted and which key an accepted one yields.           *)
(*                                                                         *)
(* A field is [k, v]: k = "ok" well formed with value v, "abs" absent,     *)
(* "null" a JSON null, "wrong" a value of another JSON type, "junk" the    *)
(* right type with a content the format does not allow.                    *)
(*   c.form   ""  three base64url parts, or what is wrong with that        *)
(*   c.json   ""  or what is wrong with the JSON text of the payload       *)
(*   c.hjson  ""  the same of the header (SOC)                             *)
(*   c.code   ""  the authentication code is the whole code of the issued  *)
(*            content under the right key, or what was done to it          *)
(* Everything that is authenticated must be as issued: c.f = c.m.          *)
(***************************************************************************)
EXTENDS SecApi

Ok(v) == [k |-> "ok", v |-> v]
Abs   == [k |-> "abs"]
IsOk(x) == x.k = "ok"
KeyUsage(n, sub) ==       \* sub: "aes", "cha", "hmac" or the type of an asymmetric key
  LET x == IF sub \in {"ec", "dh"} THEN {"X"} ELSE {} IN
  CASE n \in {0, 3} -> {"W", "C", "E", "S", "D"} \cup x
    [] n = 1 -> (IF sub = "hmac" THEN {} ELSE {"C", "E"}) \cup {"S", "D"} \cup x
    [] OTHER -> {"W"}

---------------------------------------------------------------------------
(* Type-J.  The keys that decrypt and authenticate it are named kc and kh. *)
TjReq == {"id", "rights", "usage", "nb", "na", "cach", "key"}
TjVer(f) == IF f.ver.k = "abs" THEN 1 ELSE IF IsOk(f.ver) THEN f.ver.v ELSE 0
TjAlg(f) == IF TjVer(f) = 1 THEN "aesEcbNone" ELSE IF IsOk(f.alg) THEN f.alg.v ELSE ""
TjAlgs == {"aesEcbNone", "aesEcbPkcs5", "aesCbcNone", "aesCbcPkcs5"}
TjNone == {"aesEcbNone", "aesCbcNone"}
TjCbc  == {"aesCbcNone", "aesCbcPkcs5"}

OutOfRights(s) ==          \* s: the set of codes in contentKeyRights
  (IF 1 \in s THEN {} ELSE {"so"}) \cup (IF 2 \in s THEN {"dt"} ELSE {}) \cup (IF 3 \in s THEN {"d14"} ELSE {}) \cup (IF 4 \in s THEN {"d22"} ELSE {})
  \cup (IF 5 \in s THEN {"ac"} \cup (IF 8 \in s THEN {} ELSE {"au"}) ELSE {})
RightCodes == {0, 1, 2, 3, 4, 5, 8}
Codes(q) == {q[i] : i \in DOMAIN q}

TjUse(keys, now, kname, u, flag) ==
  IF kname \notin DOMAIN keys THEN {"handle"}
  ELSE LET k == keys[kname] IN F(TaOk(k.r, u) /\ TimeOk(k.r, now), "rights") \cup F(flag \in k.r.f, "rights")

TjFails(keys, now, c, kc, kh, u) ==
  LET f == c.f  n == IF IsOk(f.key) THEN f.key.v.n ELSE 16  uc == TjUse(keys, now, kc, u, "W")  uh == TjUse(keys, now, kh, u, "S") IN
  uc \cup uh \cup (IF "handle" \in uc THEN {} ELSE F(IsAes(keys[kc]), "kind")) \cup (IF "handle" \in uh THEN {} ELSE F(IsSym(keys[kh]), "kind"))
  \cup F(c.form \in {"", "emptyh"}, "fmt") \cup F(c.json \in {"", "deepfield"}, "fmt") \cup F(c.code = "", "mac") \cup F(c.f = c.m, "mac")
  \cup UNION {F(IsOk(f[x]), "field") : x \in TjReq} \cup F(f.ta.k \in {"ok", "abs"}, "field") \cup F(TjVer(f) \in 1..3, "field")
  \cup F(n >= 16 /\ n <= 512, "size") \cup F(TjAlg(f) \notin TjNone \/ n % 16 = 0, "size")
  \cup (IF TjVer(f) = 1 THEN {} ELSE F(IsOk(f.alg), "field") \cup F(IsOk(f.len) /\ f.len.v = n, "field") \cup F(TjAlg(f) \notin TjCbc \/ IsOk(f.iv), "field"))
(* not said: a key encrypted in another way than the container says; a usage of the other format; an empty
   header (it carries nothing that is used); a field that is not known and deeply nested *)
TjOpen(c) == \/ c.form = "emptyh" \/ c.json = "deepfield"
             \/ IsOk(c.f.key) /\ c.f.key.v.enc # TjAlg(c.f)
             \/ IsOk(c.f.usage) /\ c.f.usage.v = 3
TjRights(keys, c, kc) ==
  LET f == c.f
      r == [f |-> OutOfRights(Codes(f.rights.v)) \cup KeyUsage(f.usage.v, "aes") \cup (IF f.cach.v THEN {"ca"} ELSE {}), c |-> {}, nb |-> f.nb.v, na |-> f.na.v,
            ta |-> IF f.ta.k = "abs" THEN "all" ELSE f.ta.v] IN
  Restrict(r, keys[kc].r)
TjKey(c) == [t |-> "sym", n |-> c.f.key.v.n, cv |-> ""]

---------------------------------------------------------------------------
(* SOC: authenticated with AES-GCM under a key from the device's ladder.   *)
SocReq == {"alg", "ver", "kt", "key", "iv", "usage", "c1", "c2", "c3"}
KeyTypes == [x \in {"AES-128", "AES-256", "HMAC-128", "HMAC-160", "HMAC-256", "CHACHA20-256", "RSA-1024", "RSA-2048", "RSA-3072", "RSA-4096",
                    "ECC-P192", "ECC-P224", "ECC-P256", "ECC-P384", "ECC-P521", "ECC-ED25519", "ECC-ED448", "ECC-X25519", "ECC-X448"} |->
  CASE x = "AES-128" -> [t |-> "sym", n |-> 16, cv |-> "", sub |-> "aes"] [] x = "AES-256" -> [t |-> "sym", n |-> 32, cv |-> "", sub |-> "aes"]
    [] x = "HMAC-128" -> [t |-> "sym", n |-> 16, cv |-> "", sub |-> "hmac"] [] x = "HMAC-160" -> [t |-> "sym", n |-> 20, cv |-> "", sub |-> "hmac"]
    [] x = "HMAC-256" -> [t |-> "sym", n |-> 32, cv |-> "", sub |-> "hmac"] [] x = "CHACHA20-256" -> [t |-> "sym", n |-> 32, cv |-> "", sub |-> "cha"]
    [] x = "RSA-1024" -> [t |-> "rsa", n |-> 128, cv |-> "", sub |-> "rsa"] [] x = "RSA-2048" -> [t |-> "rsa", n |-> 256, cv |-> "", sub |-> "rsa"]
    [] x = "RSA-3072" -> [t |-> "rsa", n |-> 384, cv |-> "", sub |-> "rsa"] [] x = "RSA-4096" -> [t |-> "rsa", n |-> 512, cv |-> "", sub |-> "rsa"]
    [] x = "ECC-P192" -> [t |-> "ec", n |-> 24, cv |-> "p192", sub |-> "ec"] [] x = "ECC-P224" -> [t |-> "ec", n |-> 28, cv |-> "p224", sub |-> "ec"]
    [] x = "ECC-P256" -> [t |-> "ec", n |-> 32, cv |-> "p256", sub |-> "ec"] [] x = "ECC-P384" -> [t |-> "ec", n |-> 48, cv |-> "p384", sub |-> "ec"]
    [] x = "ECC-P521" -> [t |-> "ec", n |-> 66, cv |-> "p521", sub |-> "ec"] [] x = "ECC-ED25519" -> [t |-> "ec", n |-> 32, cv |-> "ed25519", sub |-> "ec"]
    [] x = "ECC-ED448" -> [t |-> "ec", n |-> 57, cv |-> "ed448", sub |-> "ec"] [] x = "ECC-X25519" -> [t |-> "ec", n |-> 32, cv |-> "x25519", sub |-> "ec"]
    [] OTHER -> [t |-> "ec", n |-> 56, cv |-> "x448", sub |-> "ec"]]
Roots(f) == IF f.ver.v >= 5 /\ IsOk(f.rkt) THEN f.rkt.v ELSE "unique"

(* what the authentication code covers: an empty list of identifiers is no list *)
SocAuth(f) == [f EXCEPT !.ta = IF f.ta.k = "ok" /\ f.ta.v = "none" THEN Abs ELSE @, !.rkt = IF IsOk(f.ver) /\ f.ver.v < 5 THEN Abs ELSE @, !.dusage = IF IsOk(f.usage) /\ f.usage.v # 2 THEN Abs ELSE @]
SocFails(c, par) ==
  LET f == c.f IN
  F(par \in {"null", "v2", "v3"}, "arg") \cup F(c.form = "", "fmt") \cup F(c.json \in {"", "deepfield"}, "fmt") \cup F(c.hjson \in {"", "deepfield"}, "fmt") \cup F(c.code = "", "mac") \cup F(SocAuth(c.f) = SocAuth(c.m), "mac")
  \cup UNION {F(IsOk(f[x]), "field") : x \in SocReq} \cup F(f.ta.k \in {"ok", "abs"}, "field")
  \cup (IF IsOk(f.ver) /\ f.ver.v >= 5 THEN F(f.rkt.k \in {"ok", "abs"}, "field") ELSE {})
  \cup (IF IsOk(f.usage) /\ f.usage.v = 2 THEN F(f.dusage.k \in {"ok", "abs"}, "field") \cup (IF IsOk(f.kt) THEN F(KeyTypes[f.kt.v].sub # "hmac", "field") ELSE {}) ELSE {})
  \cup (IF IsOk(f.key) /\ IsOk(f.kt) THEN F(\A x \in {"t", "n", "cv"} : KeyTypes[f.key.v][x] = KeyTypes[f.kt.v][x], "size") ELSE {})        \* the key inside is one of that type
(* not said: deeply nested fields that are not known; fields that do not apply; a key encryption key without the usage of what it decrypts *)
SocOpen(c) == LET f == c.f IN
  \/ "deepfield" \in {c.json, c.hjson}
  \/ IsOk(f.ver) /\ f.ver.v < 5 /\ f.rkt.k # "abs"
  \/ IsOk(f.usage) /\ f.usage.v # 2 /\ f.dusage.k # "abs"
  \/ IsOk(f.usage) /\ f.usage.v = 2 /\ f.dusage.k = "abs"
SocRights(c) == LET f == c.f k == KeyTypes[f.kt.v] IN
  [f |-> {"ca"} \cup OutF \cup KeyUsage(f.usage.v, k.sub), c |-> IF f.usage.v = 2 THEN KeyUsage(f.dusage.v, k.sub) ELSE {}, nb |-> 0, na |-> 5000,
   ta |-> IF f.ta.k = "abs" \/ f.ta.v = "none" THEN "all" ELSE f.ta.v]
SocKey(c) == KeyTypes[c.f.kt.v]
=============================================================================
