-------------------------------- MODULE Cenc --------------------------------
(***************************************************************************)
(* Common encryption (ISO/IEC 23001-7) as sa_process_common_encryption     *)
(* must do it: which bytes of a sample are decrypted, with which block     *)
(* counter or chaining value, which are copied, and which sets of samples  *)
(* are refused.                                                            *)
(*                                                                         *)
(* Numbers are [b, d] = Base(b) + d as in Svp.tla ("0", "60" = 2^60,       *)
(* "half" = 2^63, "max" = 2^64).                                           *)
(*                                                                         *)
(* A sample is a record                                                    *)
(*   c      the cipher context: a name from Ctxs                           *)
(*   cb, sb crypt_byte_block, skip_byte_block (numbers)                    *)
(*   subs   a sequence of [cl, pr]: clear and protected bytes (numbers)    *)
(*   ctr    the last 8 bytes of the initialisation vector (a number)       *)
(*   ivl    its length                                                     *)
(*   ib, ioff, il / ob, ooff, ol   where it is read from and written to:   *)
(*          protected buffer (0: clear memory of il / ol bytes), offset    *)
(*   sm     the clear input and output lie in one memory area              *)
(*   nul    "" or the pointer that is null                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

F(c, tag) == IF c THEN {} ELSE {tag}
Nat_(d) == [b |-> "0", d |-> d]
Small(x) == x.b = "0"
Fits(off, len, n) == off.b = "0" /\ off.d + len <= n
Min(a, b) == IF a < b THEN a ELSE b
(* the smaller of a number and a small integer *)
MinN(x, k) == IF Small(x) THEN Min(x.d, k) ELSE k

Alg(c)  == CASE c \in {"ctr-open", "ctr-prot", "ctr-late", "ctr-dig", "ctr-enc", "ctr-done"} -> "ctr"
             [] c \in {"cbc-open", "cbc-prot"} -> "cbc" [] OTHER -> "other"
Ctxs == {"ctr-open", "ctr-prot", "ctr-late", "ctr-dig", "ctr-enc", "ctr-done", "cbc-open", "cbc-prot", "ecb", "gcm", "none"}
SvpSize == 256
LateEnd == 200

(* --- which bytes ------------------------------------------------------- *)
(* a run <<kind, n>>: "c" n bytes copied, "e" n bytes decrypted, "r" the chaining value is set to the IV again *)
Run(k, n) == IF n = 0 /\ k # "r" THEN <<>> ELSE << <<k, n>> >>
RECURSIVE Pattern(_, _, _)
Pattern(n, cb, sb) ==
  IF n < 16 THEN Run("c", n)
  ELSE LET e == 16 * MinN(cb, n \div 16)
           k == IF Small(sb) /\ sb.d = 0 THEN 0 ELSE 16 * MinN(sb, (n - e) \div 16)
       IN Run("e", e) \o Run("c", k) \o Pattern(n - e - k, cb, sb)
Whole(x) == Small(x.cb) /\ x.cb.d = 0          \* no pattern: cenc / cbc1
Protected(x, n) ==
  IF n = 0 THEN <<>>
  ELSE IF Whole(x) THEN (IF Alg(x.c) = "cbc" THEN Run("e", (n \div 16) * 16) \o Run("c", n % 16) ELSE Run("e", n))
  ELSE (IF Alg(x.c) = "cbc" THEN Run("r", 0) ELSE <<>>) \o Pattern(n, x.cb, x.sb)
RECURSIVE RunsFrom(_, _)
RunsFrom(x, i) == IF i > Len(x.subs) THEN <<>> ELSE Run("c", x.subs[i].cl.d) \o Protected(x, x.subs[i].pr.d) \o RunsFrom(x, i + 1)
Runs(x) == RunsFrom(x, 1)

(* The same said byte by byte, straight from the standard (used to check the definition above). *)
IsDecrypted(x, n, p) ==      \* byte p (from 0) of a protected area of n bytes
  IF Whole(x) THEN Alg(x.c) = "ctr" \/ p < (n \div 16) * 16
  ELSE LET blk == p \div 16 IN
       /\ blk < n \div 16                                   \* an incomplete last block stays clear
       /\ (~Small(x.cb) \/ (Small(x.sb) /\ x.sb.d = 0) \/ (IF Small(x.sb) THEN blk % (x.cb.d + x.sb.d) < x.cb.d ELSE blk < x.cb.d))

RECURSIVE SumL(_, _)
SumL(s, i) == IF i > Len(s) THEN 0 ELSE s[i].cl.d + s[i].pr.d + SumL(s, i + 1)
Total(x) == SumL(x.subs, 1)
SmallSubs(x) == \A i \in DOMAIN x.subs : Small(x.subs[i].cl) /\ Small(x.subs[i].pr)

(* --- which samples ----------------------------------------------------- *)
Lap(x, n) == \/ x.ib # 0 /\ x.ib = x.ob /\ Small(x.ioff) /\ Small(x.ooff) /\ x.ioff.d < x.ooff.d + n /\ x.ooff.d < x.ioff.d + n
             \/ x.ib = 0 /\ x.ob = 0 /\ x.sm /\ Small(x.ioff) /\ Small(x.ooff) /\ x.ioff.d < x.ooff.d + n /\ x.ooff.d < x.ioff.d + n
Place(b, off, len, n) == IF b = 0 THEN F(Fits(off, n, len), "range") ELSE IF b \notin 1..2 THEN {"handle"} ELSE F(Fits(off, n, SvpSize), "range")

(* st = [now, dig]: the time, and the number of unprotected digital outputs *)
SampleFails(st, x) ==
  IF x.nul # "" THEN {"arg"}
  ELSE IF x.c = "none" THEN {"handle"}
  ELSE F(x.ivl = 16, "arg") \cup F(Len(x.subs) > 0, "arg") \cup F(~(Whole(x) /\ ~(Small(x.sb) /\ x.sb.d = 0)), "arg")
       \cup F(Alg(x.c) # "other", "alg") \cup F(x.c # "ctr-enc", "mode") \cup F(x.c # "ctr-done", "done")
       \cup F(x.c # "ctr-late" \/ st.now < LateEnd, "rights") \cup F(x.c # "ctr-dig" \/ st.dig = 0, "rights")
       \cup F(x.ob # 0 \/ x.c \notin {"ctr-prot", "cbc-prot"}, "rights") \cup F(x.ob # 0 \/ x.ib = 0, "leak")
       \cup (IF ~SmallSubs(x) THEN {"range"} ELSE Place(x.ib, x.ioff, x.il, Total(x)) \cup Place(x.ob, x.ooff, x.ol, Total(x)) \cup F(~Lap(x, Total(x)), "overlap"))

(* outcomes left open: nothing to do at all *)
SampleOpen(x) == SmallSubs(x) /\ Total(x) = 0
=============================================================================
