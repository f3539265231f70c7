-------------------------------- MODULE Misc --------------------------------
(* Facts about the device, random data, and arguments whose size does not fit an int.

   The device has facts that are fixed when it is made: the interface version, a name, an identifier.  Every application that has
   a session reads the same values, at any time; what it is told of itself is the identity the transport authenticated.  When the
   transport cannot say who calls, or the device cannot read a fact, the call is refused.

   Random data: all requested bytes and no others come from the random source, and no byte of the source is given out twice.

   A size is a natural number.  A call either is carried out for the whole of it or is refused; nothing in between. *)
EXTENDS Naturals, Sequences, FiniteSets

Facts == {"version", "devid", "uuid"}
BufKinds == {"null", "none", "short", "exact", "long"}

(* the result of a call: refused (TRUE) for one of these reasons *)
F(ok, why) == IF ok THEN {} ELSE {why}
(* a state: [auth: the transport says who calls, drawn: number of bytes taken from the random source] *)
FactFails(st, a) == F(st.auth, "auth") \cup F(~a.null, "null")
NameFails(st, a) == F(st.auth, "auth") \cup F(~a.nolen, "null") \cup F(a.buf \in {"null", "exact", "long"}, "size")
NameWritten(a) == a.buf \in {"exact", "long"}
RandomFails(st, a) == F(st.auth, "auth") \cup F(~a.null, "null")
RandomOpen(a) == a.n = 0          \* not said whether a request for nothing is refused

(* Sizes around the largest int; the number of bytes is Giga * 2^31 + more *)
Huge == [giga : {1, 2}, more : {0, 16, 4096}]
HugeOps == {"random", "process", "last", "aad", "unwrap", "unwrapaad", "label"}
HugeAlgs(op) == CASE op = "process" -> {"ctr", "gcm", "cha", "poly", "cbc", "ecb", "ecbp"} [] op = "last" -> {"poly"} [] op \in {"aad", "unwrapaad"} -> {"gcm", "poly"} [] op = "unwrap" -> {"ctr", "cha", "ecb", "gcm"} [] OTHER -> {""}
(* no key and no label has such a size, so these cannot be right; the others may be refused, but must be right when they are not *)
HugeVerdict(op) == IF op \in {"unwrap", "unwrapaad", "label"} THEN "n" ELSE "any"
=============================================================================
