------------------------------- MODULE ProvGen -------------------------------
EXTENDS Prov, TLC, Json
CONSTANTS Depth, What        \* What: "cipher", "mac", "kdf", "pkey"
VARIABLES st, pk, hist        \* pk: the pkeys made of the application's keys

R(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
Chance(p) == R(1..100) <= p
V(f) == IF f = {} THEN "y" ELSE "n"
Lens == {0, 1, 2, 5, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 100, 160}
Small == {0, 1, 7, 16, 20}
Dgs == {"sha1", "sha256", "sha384", "sha512"}
Ctxs(kinds, phases) == {c \in 1..NCtx : st.ctx[c].kind \in kinds /\ st.ctx[c].phase \in phases}
Slot(x) == LET free == {c \in 1..NCtx : st.ctx[c].kind = "none"} IN R(IF free # {} THEN free ELSE 1..NCtx)
(* the handle c's context borrows: nobody else may hand it over meanwhile *)
Borrowed(s, k) == \E c \in 1..NCtx : s.ctx[c].kind \in {"cipher", "mac", "kdf"} /\ s.ctx[c].use = k
Usable(n) == {k \in 1..Len(KeyLen) : st.key[k] = 0 /\ (n = {} \/ KeyLen[k] \in n)}
(* how and which key: a.kf, a.k (0: no such key) *)
KeyArg(c, n, raw, may) == LET u == Usable(IF Chance(93) THEN n ELSE {}) g == {k \in u : \A d \in 1..NCtx \ {c} : st.ctx[d].kind \notin {"cipher", "mac", "kdf"} \/ st.ctx[d].use # k} r == R(1..100) IN
  CASE r <= 4 -> [kf |-> "handle", k |-> 0]
    [] r <= 25 /\ may -> [kf |-> "", k |-> 0]
    [] r <= 45 /\ raw -> [kf |-> "raw", k |-> 0]
    [] r <= 65 /\ g # {} -> [kf |-> "give", k |-> R(g)]
    [] u # {} -> [kf |-> R(IF raw THEN {"handle"} ELSE {"handle", "octets"}), k |-> R(u)]
    [] OTHER -> [kf |-> "handle", k |-> 0]
Use(s, a) == [s EXCEPT !.ctx[a.c] = IF a.kf = "" THEN @ ELSE [use |-> a.k] @@ @]
Gone(s) == {k \in 1..Len(s.key) : s.key[k] = -1}
Emit(a, s) == /\ hist' = Append(hist, [gone |-> Gone(s)] @@ a) /\ st' = s /\ UNCHANGED pk
Put(c, r) == [Free(st, c) EXCEPT !.ctx[c] = r @@ [use |-> 0]]

(* --- ciphers --- *)
CNew == \E c \in {Slot(st)} : \E al \in {R(Algs)} : \E n \in {R(Sizes(al))} : Emit([op |-> "cnew", c |-> c, alg |-> al, size |-> n, ok |-> "y"], Put(c, NewCipher(al, n)))
CInitG(c) == LET x == st.ctx[c] IN \E ka \in {TLCEval(KeyArg(c, {x.size}, TRUE, x.haskey \/ Chance(10)))} :
  LET iv == IF x.alg = "ecb" THEN Chance(20) ELSE IF x.iv /\ x.alg = "cbc" THEN Chance(60) ELSE TRUE IN \E v \in {iv} : \E d \in {R({"enc", "dec"})} : \E p \in {IF Blocky(x.alg) THEN R(IF x.padset THEN {"", "0", "1"} ELSE {"0", "1"}) ELSE ""} :
  LET a == [op |-> "cinit", c |-> c, dir |-> d, iv |-> v, pad |-> p, how |-> IF c % 2 = 0 THEN "ctrl" ELSE "params"] @@ ka f == CInitFails(st, a) s == IF f = {} THEN Use(CInit(st, a), a) ELSE CInit(st, a) IN
  (* a missing key may be reported now or with the first data *)
  Emit([ok |-> IF f = {"nokey"} THEN "any" ELSE V(f), why |-> f] @@ a, s)
CUpdG(c) == \E n \in {R(IF Aead(st.ctx[c].alg) /\ st.ctx[c].phase = "open" THEN Lens \ {0} ELSE Lens)} : LET a == [op |-> "cupd", c |-> c, n |-> n] f == CUpdFails(st, a) IN Emit([ok |-> V(f), why |-> f] @@ a, CUpd(st, a))
CAadG(c) == \E n \in {R(Lens)} : LET a == [op |-> "caad", c |-> c, n |-> n] f == CAadFails(st, a) IN Emit([ok |-> V(f), why |-> f] @@ a, CAad(st, a))
CTagG(c) == \E n \in {IF Chance(70) \/ st.ctx[c].alg = "poly" THEN 16 ELSE R(4..16)} : \E t \in {IF Chance(80) THEN "right" ELSE "wrong"} : LET a == [op |-> "ctag", c |-> c, n |-> n, tag |-> t] IN Emit([ok |-> "y"] @@ a, CTag(st, a))
CFinG(c) == LET x == st.ctx[c] IN \E a \in {TLCEval([op |-> "cfin", c |-> c, goodpad |-> Chance(80), none |-> Aead(x.alg) /\ Chance(40), padlen |-> R(1..16), badpad |-> R({"zero", "big", "mixed"})])} : LET f == CFinFails(st, a) IN
  Emit([ok |-> V(f), why |-> f, pad |-> x.pad, dir |-> x.dir, n |-> x.n, aead |-> Aead(x.alg)] @@ a, CFin(st, a))
CGetG(c) == \E n \in {IF Chance(70) THEN 16 ELSE R(1..16)} : LET a == [op |-> "cget", c |-> c, n |-> n] IN Emit([ok |-> V(CGetTagFails(st, a))] @@ a, st)
FreeG(c) == Emit([op |-> "free", c |-> c, ok |-> "y"], Free(st, c))
CDup(c) == LET a == [op |-> "cdup", c |-> c, ok |-> "n"] IN Emit(a, st)
CipherNext == LET k == R(1..100) o == Ctxs({"cipher"}, {"open", "data"}) any == Ctxs({"cipher"}, {"new", "open", "data", "done"}) IN
  \E q \in {k} : IF any = {} THEN CNew
  ELSE IF o # {} /\ q <= 75 THEN \E c \in {R(o)} : LET x == st.ctx[c] IN \E z \in {R(1..100)} :
         IF Aead(x.alg) /\ x.phase = "open" /\ z <= 40 THEN CAadG(c) ELSE IF Aead(x.alg) /\ x.dir = "dec" /\ x.tag = "" /\ z <= 65 THEN CTagG(c)
         ELSE IF z <= 68 THEN CUpdG(c) ELSE IF z <= 71 /\ x.n > 0 THEN CAadG(c) ELSE CFinG(c)
  ELSE IF q <= 88 THEN \E c \in {R(any)} : CInitG(c) ELSE IF q <= 92 THEN CNew ELSE IF q <= 94 THEN \E c \in {R(any)} : FreeG(c) ELSE IF q <= 95 THEN \E c \in {R(any)} : CDup(c)
  ELSE \E c \in {R(any)} : IF st.ctx[c].phase = "done" /\ Aead(st.ctx[c].alg) /\ st.ctx[c].dir = "enc" THEN CGetG(c) ELSE CInitG(c)

(* --- message authentication, digests --- *)
MNew == \E c \in {Slot(st)} : \E al \in {R({"hmac", "cmac"})} : Emit([op |-> "mnew", c |-> c, alg |-> al, ok |-> "y"], Put(c, NewMac(al)))
MInitG(c) == LET x == st.ctx[c] IN \E ka \in {TLCEval(KeyArg(c, IF x.alg = "cmac" THEN {16, 32} ELSE {}, TRUE, x.keylen # 0 \/ Chance(10)))} : \E n \in {IF x.alg = "cmac" /\ Chance(90) THEN R({16, 32}) ELSE R({16, 20, 32, 64, 80, 128, 200})} :
  \E a \in {TLCEval([op |-> "minit", c |-> c, n |-> n, dg |-> IF x.alg = "cmac" \/ (x.dgset /\ Chance(20)) THEN "" ELSE R(Dgs)] @@ ka)} : LET f == MInitFails(st, a) s0 == MInit(st, a) s == IF ka.kf \in {"handle", "give"} /\ ka.k = 0 THEN s0 ELSE Use(s0, a) IN Emit([ok |-> V(f), why |-> f] @@ a, s)
MUpdG(c) == \E n \in {R(Lens)} : LET a == [op |-> "mupd", c |-> c, n |-> n] f == MUpdFails(st, a) IN Emit([ok |-> V(f), why |-> f] @@ a, st)
MFinG(c) == \E a \in {TLCEval([op |-> "mfin", c |-> c, room |-> Chance(90), more |-> R({0, 1, 20})])} : LET f == MFinFails(st, a) IN Emit([ok |-> V(f), why |-> f] @@ a, MFin(st, a))
DNew == \E c \in {Slot(st)} : \E dg \in {R(Dgs)} : Emit([op |-> "dnew", c |-> c, dg |-> dg, ok |-> "y"], Put(c, NewDigest(dg)))
DInitG(c) == Emit([op |-> "dinit", c |-> c, ok |-> "y"], [st EXCEPT !.ctx[c].phase = "open"])
DUpdG(c) == Emit([op |-> "dupd", c |-> c, n |-> R(Lens), ok |-> "y"], st)
DFinG(c) == Emit([op |-> "dfin", c |-> c, ok |-> "y"], [st EXCEPT !.ctx[c].phase = "done"])
DDup(c) == \E d \in {R(1..NCtx \ {c})} : Emit([op |-> "ddup", c |-> c, d |-> d, ok |-> "y"], [Free(st, d) EXCEPT !.ctx[d] = st.ctx[c]])
MacNext == LET k == R(1..100) o == Ctxs({"mac"}, {"open"}) do == Ctxs({"digest"}, {"open"}) any == Ctxs({"mac", "digest"}, {"new", "open", "done"}) IN
  \E q \in {k} : IF any = {} \/ q <= 8 THEN MNew ELSE IF q <= 12 THEN DNew
  ELSE IF q <= 55 /\ o # {} THEN \E c \in {R(o)} : IF Chance(65) THEN MUpdG(c) ELSE MFinG(c)
  ELSE IF q <= 75 /\ do # {} THEN \E c \in {R(do)} : \E z \in {R(1..10)} : IF z <= 6 THEN DUpdG(c) ELSE IF z <= 7 THEN DDup(c) ELSE DFinG(c)
  ELSE \E c \in {R(any)} : IF Chance(8) THEN FreeG(c) ELSE IF st.ctx[c].kind = "mac" THEN MInitG(c) ELSE DInitG(c)

(* --- key derivation --- *)
KNew == \E c \in {Slot(st)} : \E al \in {R({"hkdf", "sskdf", "x963kdf", "kbkdf"})} : Emit([op |-> "knew", c |-> c, alg |-> al, ok |-> "y"], Put(c, NewKdf(al)))
KArg(op, c) == LET x == st.ctx[c] kb == x.alg = "kbkdf" IN
  [op |-> op, c |-> c, dg |-> IF kb \/ Chance(40) THEN "" ELSE R(Dgs), salt |-> IF x.alg \in {"hkdf", "kbkdf"} /\ Chance(50) THEN R(Small) ELSE -1, info |-> IF Chance(50) THEN R(Small) ELSE -1, sep |-> IF kb /\ Chance(40) THEN R({0, 1}) ELSE -1, l |-> IF kb /\ Chance(40) THEN R({0, 1}) ELSE -1,
   n |-> IF kb THEN R({16, 20, 32, 40, 48, 64, 65}) ELSE R({16, 20, 32, 33, 48, 64, 100, 200})] @@ KeyArg(c, IF kb THEN {16, 32} ELSE {}, FALSE, op = "kset" \/ x.keylen # 0 \/ Chance(10))
KUse(s, a) == IF a.kf = "" \/ a.k = 0 THEN s ELSE [s EXCEPT !.ctx[a.c] = [use |-> a.k] @@ @]
KSetG(c) == \E a \in {TLCEval(KArg("kset", c))} : LET f == KSetFails(st, a) IN Emit([ok |-> V(f), why |-> f] @@ a, KUse(KSet(st, a), a))
KDeriveG(c) == \E b \in {TLCEval(KArg("kderive", c))} : \E a \in {IF Chance(30) THEN [b EXCEPT !.kf = "", !.k = 0, !.dg = "", !.salt = -1, !.info = -1, !.sep = -1, !.l = -1] ELSE b} : LET f == KDeriveFails(st, a) IN Emit([ok |-> V(f), why |-> f] @@ a, KUse(KSet(st, a), a))
KResetG(c) == LET a == [op |-> "kreset", c |-> c, ok |-> "y"] IN Emit(a, [KReset(st, a) EXCEPT !.ctx[c] = [use |-> 0] @@ @])
KDupG(c) == \E d \in {R(1..NCtx \ {c})} : LET a == [op |-> "kdup", c |-> c, d |-> d, ok |-> "y"] s == KDup(st, a) IN Emit(a, [s EXCEPT !.ctx[d] = IF st.ctx[c].own > 0 THEN [use |-> 0] @@ @ ELSE @])
KdfNext == LET any == Ctxs({"kdf"}, {"open"}) IN \E q \in {R(1..100)} : IF any = {} \/ q <= 12 THEN KNew ELSE \E c \in {R(any)} : IF q <= 30 THEN KSetG(c) ELSE IF q <= 78 THEN KDeriveG(c) ELSE IF q <= 88 THEN KResetG(c) ELSE IF q <= 95 THEN KDupG(c) ELSE FreeG(c)

(* --- asymmetric keys --- *)
(* pk[p] = [k: index in Pk or 0, give: the handle was handed over, open] *)
Refs(s, p) == {c \in 1..NCtx : s.ctx[c].kind \in {"exch", "sign", "verify", "dec", "enc"} /\ s.ctx[c].p = p}
Settle(s, q) == [s EXCEPT !.key = [k \in DOMAIN s.key |-> IF s.key[k] > 0 /\ ~q[s.key[k]].open /\ Refs(s, s.key[k]) = {} THEN -1 ELSE s.key[k]]]
PEmit(a, s0, q) == LET s == Settle(s0, q) IN /\ hist' = Append(hist, [gone |-> Gone(s)] @@ a) /\ st' = s /\ pk' = q
Used(k) == \E i \in DOMAIN hist : hist[i].op = "pnew" /\ hist[i].k = k
Made(k) == \E i \in DOMAIN hist : hist[i].op = "pnew" /\ hist[i].k = k /\ hist[i].how = "gen"     (* the provider made this key *)
Lone(k) == ~Made(k) /\ \A p \in DOMAIN pk : pk[p].k # k \/ pk[p].how = "der" \/ (~pk[p].open /\ Refs(st, p) = {})
(* OpenSSL reads no Ed448 keys in a library context without SHAKE256 *)
PNew == LET slots == {p \in DOMAIN pk : ~pk[p].open /\ Refs(st, p) = {}} ks == {k \in 1..Len(Pk) : st.key[k] = 0} IN
  IF slots = {} \/ ks = {} THEN PEmit([op |-> "nop", ok |-> "y"], st, pk) ELSE \E p \in {R(slots)} : \E k \in {R(ks)} : \E h \in {R((IF Lone(k) THEN {"give"} ELSE {}) \cup (IF Pk[k] \in {"dh", "ed448"} \/ Made(k) THEN {} ELSE {"der"}) \cup (IF Used(k) \/ Pk[k] = "dh" \/ (Pk[k] = "rsa" /\ Chance(60)) THEN {} ELSE {"gen"}) \cup {"handle"})} :
    PEmit([op |-> "pnew", p |-> p, k |-> k, type |-> Pk[k], how |-> h, ok |-> "y"], IF h \in {"give", "gen"} THEN [st EXCEPT !.key[k] = p] ELSE st, [pk EXCEPT ![p] = [k |-> k, how |-> h, open |-> TRUE]])
PFree(p) == PEmit([op |-> "pfree", p |-> p, ok |-> "y"], st, [pk EXCEPT ![p].open = FALSE])
PMatch(p, q) == PEmit([op |-> "pmatch", p |-> p, q |-> q, same |-> pk[p].k = pk[q].k, types |-> Pk[pk[p].k] = Pk[pk[q].k], ok |-> "y"], st, pk)
Opens == {p \in DOMAIN pk : pk[p].open}
New(kind, p) == \E c \in {Slot(st)} : \E md \in {R(Dgs)} : \E pad \in {IF Pk[pk[p].k] = "rsa" THEN (IF kind \in {"enc", "dec"} THEN R({"", "pkcs1", "oaep", "oaep"}) ELSE R({"", "pkcs1", "pss", "pss"})) ELSE ""} : \E mgf \in {IF pad \in {"pss", "oaep"} /\ Chance(50) THEN R(Dgs) ELSE ""} :
  LET t == Pk[pk[p].k] x == [NewPk(kind, pk[p].k) EXCEPT !.md = IF Pure(t) \/ (kind \in {"enc", "dec"} /\ (pad # "oaep" \/ Chance(25))) THEN "" ELSE md, !.pad = pad, !.mgf = mgf, !.salt = IF pad = "pss" THEN R({"", "digest", "max", "auto", "0", "7", "20"}) ELSE "", !.label = pad = "oaep" /\ Chance(50)] IN
  \E y \in {TLCEval(x)} : \E pre \in {(kind \in {"sign", "verify"}) /\ ~Pure(t) /\ Chance(30)} : PEmit([op |-> "xnew", c |-> c, p |-> p, kind |-> kind, type |-> t, md |-> y.md, pad |-> y.pad, mgf |-> y.mgf, salt |-> y.salt, label |-> y.label, pre |-> pre, ok |-> "y"], [st EXCEPT !.ctx[c] = [p |-> p, pre |-> pre] @@ y], pk)
XFree(c) == PEmit([op |-> "free", c |-> c, ok |-> "y"], [st EXCEPT !.ctx[c] = Empty], pk)
XDup(c) == \E d \in {R(1..NCtx \ {c})} : PEmit([op |-> "xdup", c |-> c, d |-> d, ok |-> "y"], [st EXCEPT !.ctx[d] = [st.ctx[c] EXCEPT !.copy = TRUE]], pk)
(* OpenSSL 3.0 cannot give a peer to a copied context: EVP_PKEY_CTX_dup does not copy what EVP_PKEY_derive_set_peer_ex needs *)
XPeer(c) == \E k \in {IF Chance(90) THEN st.ctx[c].key ELSE R({j \in 1..Len(Pk) : CanAgree(Pk[j])})} : LET a == [op |-> "xpeer", c |-> c, k |-> k, type |-> Pk[k]] f == PeerFails(st, a) IN
  PEmit([ok |-> IF f = {} /\ PeerOdd(st, a) THEN "any" ELSE V(f), why |-> f] @@ a, Peer(st, a), pk)
XUpd(c) == PEmit([op |-> "xupd", c |-> c, n |-> R(Lens), ok |-> "y"], st, pk)
XDo(c) == LET x == st.ctx[c] IN \E h \in {IF x.kind \in {"verify", "dec"} /\ Chance(35) THEN R({"flip", "short", "other"}) ELSE "right"} : \E room \in {x.kind = "verify" \/ Chance(88)} :
  \E a \in {TLCEval([op |-> "xdo", c |-> c, how |-> h, room |-> room, n |-> IF x.kind \in {"enc", "dec"} THEN R(1..60) ELSE R(Lens), query |-> Chance(40)])} :
  LET f == CASE x.kind = "exch" -> AgreeFails(st, a) [] x.kind = "sign" -> SignFails(st, a) [] x.kind = "verify" -> VerifyFails(st, a) [] x.kind = "dec" -> DecryptFails(st, a) [] OTHER -> F(room, "room") IN PEmit([ok |-> V(f), why |-> f] @@ a, st, pk)
PkeyNext == LET xs == {c \in 1..NCtx : st.ctx[c].kind # "none"} IN \E q \in {R(1..100)} :
  IF Opens = {} \/ q <= 10 THEN PNew ELSE IF q <= 14 THEN \E p \in {R(Opens)} : PFree(p) ELSE IF q <= 18 THEN \E p \in {R(Opens)} : \E r \in {R(Opens)} : PMatch(p, r)
  ELSE IF xs = {} \/ q <= 32 THEN \E p \in {R(Opens)} : LET t == Pk[pk[p].k] IN \E kd \in {R((IF CanAgree(t) THEN {"exch"} ELSE {}) \cup (IF CanSign(t) THEN {"sign"} ELSE {}) \cup (IF CanSign(t) /\ ~Made(pk[p].k) THEN {"verify"} ELSE {}) \cup (IF t = "rsa" THEN {"dec"} ELSE {}) \cup (IF t = "rsa" /\ ~Made(pk[p].k) THEN {"enc"} ELSE {}))} : New(kd, p)
  ELSE \E c \in {R(xs)} : LET x == st.ctx[c] IN IF q <= 36 THEN XFree(c) ELSE IF q <= 42 THEN XDup(c) ELSE IF x.kind = "exch" /\ ~x.copy /\ q <= 66 THEN XPeer(c) ELSE IF x.kind \in {"sign", "verify"} /\ ~x.pre /\ ~Pure(Pk[x.key]) /\ q <= 72 THEN XUpd(c) ELSE IF x.kind = "exch" /\ x.peer = -1 THEN XFree(c) ELSE XDo(c)

Init == st = Zero /\ pk = [p \in 1..3 |-> [k |-> 0, how |-> "", open |-> FALSE]] /\ hist = <<>>
Next ==
  \/ Len(hist) < Depth /\ CASE What = "cipher" -> CipherNext [] What = "mac" -> MacNext [] What = "kdf" -> KdfNext [] OTHER -> PkeyNext
  \/ /\ Len(hist) = Depth
     /\ PrintT(<<"BEH", ToJson(hist)>>)
     /\ hist' = Append(hist, [op |-> "end"])
     /\ UNCHANGED <<st, pk>>
=============================================================================
