--------------------------------- MODULE Svp ---------------------------------
(***************************************************************************)
(* Protected buffers, byte for byte.                                       *)
(*                                                                         *)
(* Every byte of every buffer is a token (a positive integer); the driver  *)
(* binds each token to a concrete value when it first appears.  So the     *)
(* specification says, for every call, which byte of which buffer changes  *)
(* and where its new content comes from.                                   *)
(*                                                                         *)
(* Sizes and offsets are 64-bit numbers.  They are written [b, d]: the     *)
(* value is Base(b) + d, with b one of "0" (zero), "4g" (2^32), "half"     *)
(* (2^63), "max" (2^64, so d is negative).                                 *)
(*                                                                         *)
(* st = [ses  : sequence of the applications that own the sessions,        *)
(*       buf  : sequence of [s, live, c (sequence of tokens)],             *)
(*       tk   : number of tokens used so far,                              *)
(*       sec  : tokens that no client may see (decrypted with a key that   *)
(*              demands protected output, or present in protected memory   *)
(*              from elsewhere),                                           *)
(*       clr  : tokens that have been in memory a client can read ]        *)
(*                                                                         *)
(* The keys of a session: "prot" decrypts into protected memory only,      *)
(* "open" into any, "enc" may not decrypt, "mac" is no cipher key.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slots

F(c, tag) == IF c THEN {} ELSE {tag}
Nat_(d) == [b |-> "0", d |-> d]
(* off + len lies within a buffer of n bytes (n small) *)
Fits(off, len, n) == off.b = "0" /\ len.b = "0" /\ off.d + len.d <= n
Small(x) == x.b = "0"

Ree == 0                      \* the application identity of the rich OS
Keys == {"prot", "open", "enc", "mac"}
DigLen(dg) == CASE dg = "sha1" -> 20 [] dg = "sha256" -> 32 [] dg = "sha384" -> 48 [] dg = "sha512" -> 64 [] OTHER -> -1

InitSt == [ses |-> <<>>, buf |-> <<>>, tk |-> 0, sec |-> {}, clr |-> {}]

Open(st, a) == a.s \in DOMAIN st.ses /\ st.ses[a.s] = a.u
Here(st, b, a) == b \in DOMAIN st.buf /\ st.buf[b].live /\ st.buf[b].s = a.s
Size(st, b) == Len(st.buf[b].c)
Used(st, s) == Cardinality({b \in DOMAIN st.buf : st.buf[b].live /\ st.buf[b].s = s})

(* ranges: a sequence of [oo, io, l] *)
RangesFit(rs, on, in) == \A i \in DOMAIN rs : Fits(rs[i].oo, rs[i].l, on) /\ Fits(rs[i].io, rs[i].l, in)

(* A buffer argument of a cipher call: a.ib / a.ob = 0 for clear memory (of a.il / a.ol bytes) or the protected buffer. *)
BufFails(st, a, b, off, len, n) ==
  IF b = 0 THEN F(Fits(off, n, len), "range")
  ELSE IF ~Here(st, b, a) THEN {"handle"} ELSE F(Fits(off, n, Size(st, b)), "range")

Fails(st, a) ==
  IF a.op = "bcreate" /\ a.nul # "" THEN {"arg"}
  ELSE IF a.op \in {"bwrite", "bcopy"} /\ a.nul # "" THEN {"arg"}
  ELSE IF a.op = "bcheck" /\ a.nul # "" THEN {"arg"}
  ELSE IF a.op = "open" THEN {}
  ELSE IF ~Open(st, a) THEN {"session"}
  ELSE CASE a.op = "bcreate" -> F(Used(st, a.s) < Slots, "cap") \cup F(Small(a.n), "range")
    [] a.op = "brel"   -> F(Here(st, a.b, a), "handle")
    [] a.op = "bwrite" -> IF ~Here(st, a.b, a) THEN {"handle"} ELSE F(RangesFit(a.rs, Size(st, a.b), a.il), "range")
    [] a.op = "bcopy"  -> IF ~(Here(st, a.b, a) /\ Here(st, a.ib, a)) THEN {"handle"} ELSE F(RangesFit(a.rs, Size(st, a.b), Size(st, a.ib)), "range")
    [] a.op = "bcheck" -> F(a.u # Ree, "ree") \cup F(DigLen(a.dg) >= 0 /\ a.hl = Nat_(DigLen(a.dg)), "arg")
                          \cup (IF ~Here(st, a.b, a) THEN {"handle"} ELSE F(Fits(a.off, a.len, Size(st, a.b)), "range") \cup F(a.m = "eq", "verify"))
    [] a.op = "kcheck" -> F(a.k \in {"prot", "open"}, "rights") \cup F(a.ib # 0 \/ a.k # "prot", "rights") \cup F(a.ib = 0 \/ a.u # Ree, "ree")
                          \cup F(a.n.d % 16 = 0, "arg") \cup F(a.xl = a.n, "arg") \cup F(a.m = "eq" \/ a.n = Nat_(0), "verify")
                          \cup BufFails(st, a, a.ib, a.ioff, a.il, a.n)
    [] a.op = "cproc"  -> F(a.alg # "ecb" \/ a.n.d % 16 = 0, "arg") \cup F(a.ob # 0 \/ a.k # "prot", "rights") \cup F(~(a.ob = 0 /\ a.ib # 0), "leak")
                          \cup BufFails(st, a, a.ib, a.ioff, a.il, a.n) \cup BufFails(st, a, a.ob, a.ooff, a.ol, a.n)

(* outcomes the interface leaves open *)
OpenCase(st, a) == \/ a.op = "kcheck" /\ a.n = Nat_(0)
                   \/ a.op \in {"bwrite", "bcopy"} /\ a.rs = <<>>
                   \/ a.op = "cproc" /\ a.n = Nat_(0)
                   \/ a.op = "bwrite" /\ a.il = 0
                   \/ a.op = "bcreate" /\ a.n = Nat_(0)

(* --- effects ---------------------------------------------------------- *)
Put(c, at, x) == [i \in DOMAIN c |-> IF i > at /\ i <= at + Len(x) THEN x[i - at] ELSE c[i]]
RECURSIVE Apply(_, _, _, _)
(* ranges applied one after the other; src = <<>> : from the buffer itself *)
Apply(c, src, rs, i) ==
  IF i > Len(rs) THEN c
  ELSE LET x == SubSeq(IF src = <<>> THEN c ELSE src[1], rs[i].io.d + 1, rs[i].io.d + rs[i].l.d) IN Apply(Put(c, rs[i].oo.d, x), src, rs, i + 1)

Fresh(st, n) == [i \in 1..n |-> st.tk + i]
Range(f) == { f[i] : i \in DOMAIN f }

Eff(st, a) ==
  CASE a.op = "open"    -> [st EXCEPT !.ses = Append(@, a.u)]
    [] a.op = "bcreate" -> [st EXCEPT !.buf = Append(@, [s |-> a.s, live |-> TRUE, c |-> Fresh(st, a.n.d)]), !.tk = @ + a.n.d, !.sec = @ \cup Range(Fresh(st, a.n.d))]
    [] a.op = "brel"    -> [st EXCEPT !.buf[a.b].live = FALSE]
    [] a.op = "bwrite"  -> [st EXCEPT !.buf[a.b].c = Apply(@, << Fresh(st, a.il) >>, a.rs, 1), !.tk = @ + a.il, !.clr = @ \cup Range(Fresh(st, a.il))]
    [] a.op = "bcopy"   -> [st EXCEPT !.buf[a.b].c = Apply(@, IF a.ib = a.b THEN <<>> ELSE << st.buf[a.ib].c >>, a.rs, 1)]
    [] a.op = "cproc"   -> LET out == Fresh(st, a.n.d) IN
                           [st EXCEPT !.tk = @ + a.n.d,
                             !.buf = IF a.ob = 0 THEN @ ELSE [@ EXCEPT ![a.ob].c = Put(@, a.ooff.d, out)],
                             (* what came out is secret if the key says so or what went in was; it is known if it went to clear memory *)
                             !.sec = IF a.k = "prot" \/ (a.ib # 0 /\ \E i \in 1..a.n.d : st.buf[a.ib].c[a.ioff.d + i] \in st.sec) THEN @ \cup Range(out) ELSE @,
                             !.clr = IF a.ob = 0 THEN @ \cup Range(out) ELSE @]
    [] OTHER            -> st

(* A call that the interface leaves open is taken to have no effect if it has none to speak of. *)
Step(st, a) == IF Fails(st, a) = {} THEN Eff(st, a) ELSE st

---------------------------------------------------------------------------
(* Nothing secret is ever in memory the client can read. *)
NoLeak(st) == st.sec \cap st.clr = {}
(* The bytes a call may change. *)
May(a, b, p) == CASE a.op \in {"bwrite", "bcopy"} -> a.b = b /\ \E i \in DOMAIN a.rs : a.rs[i].oo.d < p /\ p <= a.rs[i].oo.d + a.rs[i].l.d
                  [] a.op = "cproc" -> a.ob = b /\ a.ooff.d < p /\ p <= a.ooff.d + a.n.d
                  [] OTHER -> FALSE
Contained(st, a) == \A b \in DOMAIN st.buf : \A p \in 1..Len(st.buf[b].c) :
                       Step(st, a).buf[b].c[p] # st.buf[b].c[p] => May(a, b, p)
=============================================================================
