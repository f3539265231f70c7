------------------------------- MODULE SvpGen -------------------------------
(* Random behaviours of Svp for replay (tlc -simulate). *)
EXTENDS Svp, TLC, Json
CONSTANTS Depth, Who, Pub1, Profile
(* the applications that own sessions 1, 2, ... *)
Owners == CASE Who = "all" -> <<1, 0, 2>> [] Who = "two" -> <<1, 1>> [] Who = "ta" -> <<1>> [] OTHER -> <<0>>
VARIABLES st, hist

R(S) == RandomElement(S)
Chance(p) == R(1..100) <= p
Max2(a, b) == IF a > b THEN a ELSE b

Live(s) == {b \in DOMAIN st.buf : st.buf[b].live /\ st.buf[b].s = s}
GenS(x) == R(DOMAIN st.ses)
GenU(s) == IF Chance(94) \/ Pub1 THEN st.ses[s] ELSE R({0, 1, 2})
GenBuf(s) == LET L == Live(s) IN IF L # {} /\ Chance(93) THEN R(L) ELSE IF DOMAIN st.buf # {} THEN R(DOMAIN st.buf) ELSE 1
SizeOf(b) == IF b \in DOMAIN st.buf THEN Len(st.buf[b].c) ELSE 8

(* an offset and a length for a buffer of n bytes: fitting, off by a little, or far off (also wrapping around) *)
Wraps(n) == LET k == R(1..40) j == R(0..Max2(n, 1)) IN
  R({ <<[b |-> "max", d |-> 0 - k], Nat_(k + j)>>, <<[b |-> "half", d |-> j], [b |-> "half", d |-> R(0..3)]>>,
      <<[b |-> "4g", d |-> j], Nat_(R(0..Max2(n, 1)))>>, <<Nat_(j), [b |-> "4g", d |-> R(0..Max2(n, 1))]>>, <<Nat_(k), [b |-> "max", d |-> 0 - R(1..k)]>>,
      <<[b |-> "max", d |-> 0 - k], [b |-> "max", d |-> 0 - R(1..40)]>>, <<Nat_(j), [b |-> "half", d |-> 0]>>, <<[b |-> "half", d |-> 0], Nat_(0)>>, <<[b |-> "max", d |-> 0 - 1], Nat_(R({0, 1, 2, 16}))>> })
Inside(n) == LET l == IF n = 0 THEN 0 ELSE IF Chance(20) THEN n ELSE R(0..n) IN << R({0, n - l, R(0..(n - l))}), l >>

GenIl(x) == R({1, 2, 3, 8, 16, 17, 31, 40})
GenRange(on, in, bad) ==
  LET l == IF on = 0 \/ in = 0 THEN 0 ELSE LET m == IF on < in THEN on ELSE in IN IF Chance(25) THEN m ELSE R(0..m)
      oo == R({0, on - l, R(0..(on - l))})
      io == R({0, in - l, R(0..(in - l))})
      k == IF bad THEN R(1..8) ELSE 9 IN
  CASE k = 1 -> [oo |-> Nat_(on - l + R({1, 1, 2, 16})), io |-> Nat_(io), l |-> Nat_(l)]
    [] k = 2 -> [oo |-> Nat_(oo), io |-> Nat_(in - l + R({1, 1, 2, 16})), l |-> Nat_(l)]
    [] k = 3 -> [oo |-> Nat_(oo), io |-> Nat_(io), l |-> Nat_(Max2(on - oo, in - io) + 1)]
    [] k = 4 -> [oo |-> Nat_(oo), io |-> Nat_(io), l |-> Nat_((IF on - oo < in - io THEN on - oo ELSE in - io) + 1)]
    [] k \in {5, 6} -> LET w == Wraps(on) IN [oo |-> w[1], io |-> IF Chance(50) THEN w[1] ELSE Nat_(io), l |-> w[2]]
    [] k \in {7, 8} -> LET w == Wraps(in) IN [oo |-> Nat_(oo), io |-> w[1], l |-> w[2]]
    [] OTHER -> [oo |-> Nat_(oo), io |-> Nat_(io), l |-> Nat_(l)]
GenRanges(on, in) == LET n == R({1, 1, 1, 2, 2, 3, 4, 0}) IN
  LET at == IF Chance(30) /\ n > 0 THEN R(1..n) ELSE 0 IN [i \in 1..n |-> GenRange(on, in, i = at)]
Nul(p) == IF Chance(4) THEN p ELSE ""

(* where a cipher call reads or writes: <<buffer, offset, clear length>> for n bytes *)
Place(s, clear, n, bad) ==
  LET fit == {x \in Live(s) : SizeOf(x) >= n}
      b == IF clear THEN 0 ELSE IF fit # {} /\ Chance(90) THEN R(fit) ELSE GenBuf(s)
      size == IF b = 0 THEN n + R({0, 0, 1, 5}) ELSE SizeOf(b)
      free == Max2(size - n, 0)
      off == IF bad THEN (LET x == R(1..5) IN IF x <= 2 THEN Nat_(free + R({1, 1, 2, 16})) ELSE IF x = 3 THEN [b |-> "max", d |-> 0 - R({1, 5, 16, 32, Max2(n, 1)})] ELSE IF x = 4 THEN [b |-> "half", d |-> 0] ELSE [b |-> "4g", d |-> 0]) ELSE Nat_(R({0, free, R(0..free)})) IN
  << b, off, Nat_(size) >>

Digs == {"sha1", "sha256", "sha384", "sha512", "bad"}
Data(op, s, u) ==
  CASE op = "bcreate" -> [op |-> op, s |-> s, u |-> u, n |-> IF Chance(4) THEN [b |-> "max", d |-> 0 - R({1, 2, 16, 64})] ELSE Nat_(R({1, 2, 5, 16, 17, 32, 40, 48, 64, IF Chance(20) THEN 0 ELSE 48})), nul |-> Nul(R({"mem", "out"}))]
    [] op = "brel"    -> [op |-> op, s |-> s, u |-> u, b |-> GenBuf(s)]
    [] op = "bwrite"  -> LET b == GenBuf(s) il == IF Chance(4) THEN 0 ELSE GenIl(0) IN [op |-> op, s |-> s, u |-> u, b |-> b, il |-> il, rs |-> GenRanges(SizeOf(b), il), nul |-> Nul(R({"in", "offs"}))]
    [] op = "bcopy"   -> LET b == GenBuf(s) i == GenBuf(s) IN [op |-> op, s |-> s, u |-> u, b |-> b, ib |-> i, rs |-> GenRanges(SizeOf(b), SizeOf(i)), nul |-> Nul("offs")]
    [] op = "bcheck"  -> LET b == GenBuf(s) io == Inside(SizeOf(b)) w == Wraps(SizeOf(b)) bad == R(1..100) dg == R(Digs) IN
         [op |-> op, s |-> s, u |-> u, b |-> b, off |-> IF bad <= 8 THEN w[1] ELSE IF bad <= 12 THEN Nat_(SizeOf(b) - io[2] + 1) ELSE Nat_(io[1]), len |-> IF bad <= 8 THEN w[2] ELSE IF bad <= 16 /\ bad > 12 THEN Nat_(SizeOf(b) - io[1] + 1) ELSE Nat_(io[2]),
          dg |-> dg, hl |-> Nat_(IF Chance(8) THEN R({0, 1, 19, 20, 21, 31, 32, 33, 48, 63, 64, 65}) ELSE Max2(DigLen(dg), 0)), m |-> IF Chance(65) THEN "eq" ELSE R({"first", "last", "mid", "other", "zero"}), nul |-> Nul("hash")]
    [] op = "kcheck"  -> LET n == IF Chance(80) THEN R({16, 32, 48}) ELSE R({0, 8, 15, 17}) clear == Chance(35) bad == R(1..100) p == Place(s, clear, n, bad <= 12) IN
         LET nn == IF bad > 95 /\ ~Pub1 THEN [b |-> "max", d |-> 0 - 16] ELSE Nat_(n) IN
         [op |-> op, s |-> s, u |-> u, k |-> IF Chance(93) THEN R({"prot", "open"}) ELSE R(Keys), ib |-> p[1], ioff |-> p[2], il |-> IF clear /\ bad \in 13..18 THEN Max2(n - R({0, 1, 16}), 0) ELSE p[3].d, n |-> nn, xl |-> IF Chance(6) THEN Nat_(R({0, 15, 16, 17, 32})) ELSE nn,
          m |-> IF Chance(65) THEN "eq" ELSE R({"first", "last", "mid", "other"})]
    [] op = "cproc"   -> LET n == R({16, 16, 32, 48, 1, 5, 15, 17, IF Chance(20) THEN 0 ELSE 33}) oc == Chance(30) ic == IF oc THEN Chance(85) ELSE Chance(50) bad == R(1..100) i == Place(s, ic, n, bad <= 10) o == Place(s, oc, n, bad > 10 /\ bad <= 20) IN
         LET same == i[1] # 0 /\ i[1] = o[1] nn == IF bad > 96 /\ ~(Pub1 /\ (ic \/ oc)) THEN [b |-> "max", d |-> 0 - R({16, 32, n + 1})] ELSE Nat_(n) IN
         [op |-> op, s |-> s, u |-> u, k |-> R({"prot", "open"}), alg |-> R({"ctr", "ecb", "ctr"}), ib |-> i[1], ioff |-> i[2], il |-> i[3].d, ob |-> o[1], ooff |-> IF same THEN i[2] ELSE o[2], ol |-> IF oc /\ bad \in 21..24 THEN (IF n > 0 THEN n - 1 ELSE 0) ELSE o[3].d, n |-> nn]

Ops == IF Profile = "cipher" THEN << "bcreate", "bwrite", "cproc", "cproc", "cproc", "kcheck", "bcopy", "bcheck" >>
       ELSE << "bcreate", "bcreate", "brel", "bwrite", "bwrite", "bwrite", "bcopy", "bcopy", "bcopy", "bcopy", "bcheck", "bcheck", "bcheck", "kcheck", "kcheck", "cproc", "cproc" >>
Choose(s) == IF Cardinality(Live(s)) < 2 THEN "bcreate" ELSE LET op == Ops[R(1..Len(Ops))] IN IF op = "bcreate" /\ Cardinality(Live(s)) > 5 THEN "bcopy" ELSE op

Changed(a) == IF Fails(st, a) = {} /\ a.op \in {"bwrite", "bcopy", "cproc"} THEN (IF a.op = "cproc" THEN a.ob ELSE a.b) ELSE 0
Expect(a) == LET f == Fails(st, a) IN
  [ok |-> IF f = {} /\ OpenCase(st, a) THEN "any" ELSE IF f = {} THEN "y" ELSE "n", why |-> f, tk |-> st.tk, ch |-> Changed(a), post |-> IF Changed(a) # 0 THEN Step(st, a).buf[Changed(a)].c ELSE <<>>]

Init == st = InitSt /\ hist = <<>>
Do(a) == st' = (IF OpenCase(st, a) THEN st ELSE Step(st, a)) /\ hist' = Append(hist, a @@ Expect(a))
Next ==
  \/ /\ Len(st.ses) < Len(Owners)
     /\ \E a \in {[op |-> "open", s |-> Len(st.ses) + 1, u |-> Owners[Len(st.ses) + 1]]} : Do(a)
  \/ /\ Len(st.ses) = Len(Owners) /\ Len(hist) < Depth
     /\ \E s \in {GenS(0)} : \E u \in {GenU(s)} : \E op \in {Choose(s)} : \E a \in {Data(op, s, u)} : Do(a)
  \/ /\ Len(hist) = Depth
     /\ PrintT(<<"BEH", ToJson(hist)>>)
     /\ hist' = Append(hist, [op |-> "end"])
     /\ UNCHANGED st
NoLeakInv == NoLeak(st)
=============================================================================
