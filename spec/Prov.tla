-------------------------------- MODULE Prov --------------------------------
(* The OpenSSL provider: contexts that use keys of the secure application.

   The provider has no behaviour of its own: a context goes through the life OpenSSL gives to contexts of its kind, a call
   succeeds when OpenSSL's own implementation would, and what comes out is a function of the key, the parameters and the whole of
   the data, never of how the data was divided.  What the model adds is who owns a key: the handle of the caller stays the
   caller's, unless it is handed over, and then it goes when its last user does.

   st = [key |-> [k -> 0: the application's; > 0: handed over and still in use; -1: released], ctx |-> [c -> record]]
   A record always has kind and phase; phase "none": no context, "new": not (successfully) initialised, "open", "data": data has
   been seen, "done": finalised. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NCtx
F(ok, why) == IF ok THEN {} ELSE {why}

(* the application's keys: sizes in bytes of the symmetric ones, types of the others *)
KeyLen == <<16, 32, 16, 32, 20, 64>>
Pk == <<"rsa", "p256", "p384", "p521", "x25519", "x448", "ed25519", "ed448", "dh", "rsa", "p256", "x25519", "dh", "p521">>
Empty == [kind |-> "none", phase |-> "none"]
Zero == [key |-> [k \in 1..15 |-> 0], ctx |-> [c \in 1..NCtx |-> Empty]]
Live(st, k) == k # 0 /\ st.key[k] # -1
LenOf(k) == IF k = 0 THEN 0 ELSE KeyLen[k]
(* the key a context holds is dropped: one that was handed over to it is released *)
Drop(st, c) == IF st.ctx[c].kind \in {"cipher", "mac", "kdf"} /\ st.ctx[c].own > 0 THEN [st EXCEPT !.key[st.ctx[c].own] = -1] ELSE st

(* --- ciphers ------------------------------------------------------------------------------------------------------------ *)
Algs == {"ecb", "cbc", "ctr", "gcm", "cha", "poly"}
Sizes(a) == IF a \in {"cha", "poly"} THEN {32} ELSE {16, 32}
Aead(a) == a \in {"gcm", "poly"}
Blocky(a) == a \in {"ecb", "cbc"}
NewCipher(alg, size) == [kind |-> "cipher", phase |-> "new", alg |-> alg, size |-> size, dir |-> "enc", haskey |-> FALSE, own |-> 0, iv |-> FALSE, pad |-> TRUE, padset |-> TRUE, n |-> 0, aad |-> 0, tag |-> "", taglen |-> 16]
(* how a key is given: "" not at all, "raw": its bytes, "handle": borrowed, "give": handed over *)
CInitFails(st, a) == LET x == st.ctx[a.c] IN
  F(a.kf \notin {"handle", "give"} \/ (Live(st, a.k) /\ KeyLen[a.k] = x.size), "key") \cup F(a.kf # "" \/ x.haskey, "nokey") \cup F(a.iv \/ x.iv \/ x.alg = "ecb", "noiv")
(* a key of the wrong size is refused and stays with whoever has it *)
CInit(st, a) == IF CInitFails(st, a) # {} THEN [st EXCEPT !.ctx[a.c] = [@ EXCEPT !.phase = "new", !.iv = FALSE, !.n = 0, !.aad = 0, !.tag = "",
                                                                 !.padset = @ /\ a.pad = ""]] (* whether the padding took effect is not said *)
  ELSE LET s1 == IF a.kf # "" THEN Drop(st, a.c) ELSE st IN
    [s1 EXCEPT !.ctx[a.c] = [@ EXCEPT !.phase = "open", !.dir = a.dir, !.haskey = TRUE, !.own = CASE a.kf = "" -> @ [] a.kf = "give" -> a.k [] OTHER -> 0, !.iv = TRUE, !.n = 0, !.aad = 0, !.tag = "",
                               !.pad = IF a.pad = "" THEN @ ELSE a.pad = "1", !.padset = @ \/ a.pad # ""],
               !.key = IF a.kf = "give" THEN [@ EXCEPT ![a.k] = a.c] ELSE @]
CUpdFails(st, a) == LET x == st.ctx[a.c] IN F(x.phase \in {"open", "data"}, "state")
CUpd(st, a) == IF CUpdFails(st, a) = {} THEN [st EXCEPT !.ctx[a.c].n = @ + a.n, !.ctx[a.c].phase = IF a.n > 0 THEN "data" ELSE @] ELSE st
CAadFails(st, a) == LET x == st.ctx[a.c] IN F(x.phase = "open", "state") \cup F(Aead(x.alg), "noaead")
CAad(st, a) == IF CAadFails(st, a) = {} THEN [st EXCEPT !.ctx[a.c].aad = @ + a.n] ELSE st
CTag(st, a) == [st EXCEPT !.ctx[a.c].tag = a.tag, !.ctx[a.c].taglen = a.n]
(* how much comes out in all; a.padlen: what the padding of the decrypted data says *)
Total(x, padlen) == IF ~Blocky(x.alg) \/ ~x.pad THEN x.n ELSE IF x.dir = "enc" THEN (x.n + 16) - (x.n % 16) ELSE x.n - padlen
CFinFails(st, a) == LET x == st.ctx[a.c] b == Blocky(x.alg) IN
  F(x.phase \in {"open", "data"}, "state") \cup F(~b \/ (x.pad /\ x.dir = "enc") \/ x.n % 16 = 0, "partial") \cup F(~(b /\ x.pad /\ x.dir = "dec") \/ x.n > 0, "empty")
  \cup F(~(b /\ x.pad /\ x.dir = "dec") \/ a.goodpad, "padding") \cup F(~(Aead(x.alg) /\ x.dir = "dec") \/ x.tag = "right", "tag")
CFin(st, a) == [st EXCEPT !.ctx[a.c].phase = "done"]
CGetTagFails(st, a) == LET x == st.ctx[a.c] IN F(Aead(x.alg) /\ x.dir = "enc" /\ x.phase = "done", "state")
Free(st, c) == [Drop(st, c) EXCEPT !.ctx[c] = Empty]

(* --- message authentication and digests --------------------------------------------------------------------------------- *)
NewMac(alg) == [kind |-> "mac", phase |-> "new", alg |-> alg, keylen |-> 0, own |-> 0, dg |-> "", dgset |-> TRUE, n |-> 0]
MInitFails(st, a) == LET x == st.ctx[a.c] len == IF a.kf = "" THEN x.keylen ELSE IF a.kf = "raw" THEN a.n ELSE LenOf(a.k) IN
  F(a.kf \notin {"handle", "give"} \/ Live(st, a.k), "key") \cup F(len # 0, "nokey") \cup F(x.alg # "cmac" \/ len \in {16, 32}, "size") \cup F(x.alg # "hmac" \/ a.dg # "" \/ x.dg # "", "digest")
MInit(st, a) == LET s1 == IF a.kf # "" THEN Drop(st, a.c) ELSE st
                    took == a.kf \notin {"handle", "give"} \/ Live(st, a.k) IN
  IF ~took THEN [st EXCEPT !.ctx[a.c] = [@ EXCEPT !.phase = "new", !.dgset = @ /\ a.dg = ""]] (* whether the digest was taken is not said *)
  ELSE [s1 EXCEPT !.ctx[a.c] = [@ EXCEPT !.phase = IF MInitFails(st, a) = {} THEN "open" ELSE "new", !.keylen = CASE a.kf = "" -> @ [] a.kf = "raw" -> a.n [] OTHER -> LenOf(a.k),
                                 !.own = CASE a.kf = "" -> @ [] a.kf = "give" -> a.k [] OTHER -> 0, !.dg = IF a.dg # "" THEN a.dg ELSE @, !.dgset = @ \/ a.dg # "", !.n = 0],
                  !.key = IF a.kf = "give" THEN [@ EXCEPT ![a.k] = a.c] ELSE @]
MUpdFails(st, a) == F(st.ctx[a.c].phase = "open", "state")
MFinFails(st, a) == F(st.ctx[a.c].phase = "open", "state") \cup F(a.room, "room")
MFin(st, a) == IF MFinFails(st, a) = {} THEN [st EXCEPT !.ctx[a.c].phase = "done"] ELSE st
NewDigest(dg) == [kind |-> "digest", phase |-> "new", dg |-> dg, n |-> 0]

(* --- key derivation ----------------------------------------------------------------------------------------------------- *)
NewKdf(alg) == [kind |-> "kdf", phase |-> "open", alg |-> alg, keylen |-> 0, own |-> 0, dg |-> "", salt |-> FALSE, info |-> FALSE]
KSetFails(st, a) == F(a.kf \notin {"handle", "give", "octets"} \/ Live(st, a.k), "key")
KSet(st, a) == IF KSetFails(st, a) # {} THEN st
  ELSE LET s1 == IF a.kf # "" THEN Drop(st, a.c) ELSE st IN
    [s1 EXCEPT !.ctx[a.c] = [@ EXCEPT !.keylen = IF a.kf = "" THEN @ ELSE LenOf(a.k), !.own = CASE a.kf = "" -> @ [] a.kf = "give" -> a.k [] OTHER -> 0, !.dg = IF a.dg # "" THEN a.dg ELSE @,
                               !.salt = @ \/ a.salt >= 0, !.info = @ \/ a.info >= 0],
               !.key = IF a.kf = "give" THEN [@ EXCEPT ![a.k] = a.c] ELSE @]
KDeriveFails(st, a) == LET x == KSet(st, a).ctx[a.c] IN
  KSetFails(st, a) \cup F(x.keylen # 0, "nokey") \cup F(x.alg = "kbkdf" \/ x.dg # "", "digest") \cup F(x.alg # "kbkdf" \/ x.keylen \in {16, 32}, "size") \cup F(x.alg # "kbkdf" \/ (a.n <= 64 /\ a.n % 16 = 0), "length")
KReset(st, a) == [Drop(st, a.c) EXCEPT !.ctx[a.c] = NewKdf(st.ctx[a.c].alg)]
(* a copy has its own copy of a key that was handed over *)
KDup(st, a) == [Free(st, a.d) EXCEPT !.ctx[a.d] = [st.ctx[a.c] EXCEPT !.own = 0]]

(* --- asymmetric keys: agreement, signatures, decryption ------------------------------------------------------------------- *)
(* a pkey context record: [kind, phase, key: index in Pk, peer: index or 0, md, pad, salt, mgf, label, n] *)
NewPk(op, k) == [kind |-> op, phase |-> "open", key |-> k, peer |-> 0, copy |-> FALSE, md |-> "", pad |-> "", salt |-> "", mgf |-> "", label |-> FALSE, n |-> 0]
CanAgree(t) == t \in {"p256", "p384", "p521", "x25519", "x448", "dh"}
CanSign(t) == t \in {"rsa", "p256", "p384", "p521", "ed25519", "ed448"}
Pure(t) == t \in {"ed25519", "ed448"}
(* a peer of another type is refused at once, one on another curve now or at the agreement *)
Family(t) == IF t \in {"p256", "p384", "p521"} THEN "ec" ELSE t
PeerFails(st, a) == LET x == st.ctx[a.c] IN F(Family(Pk[a.k]) = Family(Pk[x.key]), "type")
PeerOdd(st, a) == Pk[a.k] # Pk[st.ctx[a.c].key]
Peer(st, a) == IF PeerFails(st, a) # {} THEN st ELSE [st EXCEPT !.ctx[a.c].peer = IF ~PeerOdd(st, a) THEN a.k ELSE IF @ \in {0, -2} THEN -2 ELSE -1]   (* -2: nothing that fits, -1: not known *)
AgreeFails(st, a) == F(st.ctx[a.c].peer # 0, "nopeer") \cup F(st.ctx[a.c].peer # -2, "curve") \cup F(a.room, "room")
SignFails(st, a) == F(a.room, "room")
VerifyFails(st, a) == F(a.how = "right", "signature")
DecryptFails(st, a) == F(a.how = "right", "ciphertext") \cup F(a.room, "room")
=============================================================================
