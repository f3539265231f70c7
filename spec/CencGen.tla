------------------------------ MODULE CencGen ------------------------------
(* Random behaviours of Cenc for replay (tlc -simulate): calls of sa_process_common_encryption on a set of contexts,
   protected buffers 1 and 2 and clear memory, while time passes and outputs come and go. *)
EXTENDS Cenc, TLC, Json
CONSTANTS Depth, Pub1
VARIABLES st, hist

R(S) == RandomElement(S)
Chance(p) == R(1..100) <= p
Max2(a, b) == IF a > b THEN a ELSE b
N(b, d) == [b |-> b, d |-> d]

GenCtx(bad) == IF bad THEN R(Ctxs) ELSE R({"ctr-open", "ctr-prot", "cbc-open", "cbc-prot"})
GenPat(bad) == IF bad /\ Chance(40) THEN << Nat_(0), R({Nat_(1), Nat_(9), N("60", 0)}) >>
  ELSE R({ <<Nat_(0), Nat_(0)>>, <<Nat_(0), Nat_(0)>>, <<Nat_(1), Nat_(9)>>, <<Nat_(1), Nat_(1)>>, <<Nat_(2), Nat_(1)>>, <<Nat_(1), Nat_(0)>>, <<Nat_(5), Nat_(5)>>, <<Nat_(3), Nat_(2)>>, <<Nat_(1), Nat_(2)>>, <<Nat_(10), Nat_(0)>>,
           IF Chance(30) THEN R({ <<N("60", 0), Nat_(1)>>, <<Nat_(1), N("60", 0)>>, <<N("60", 1), N("60", 0)>>, <<N("max", 0 - 1), N("max", 0 - 1)>>, <<Nat_(2), N("max", 0 - 1)>>, <<N("4g", 0), N("4g", 1)>> }) ELSE <<Nat_(1), Nat_(3)>> })
GenSub(x) == [cl |-> Nat_(R({0, 0, 1, 5, 16, 20})), pr |-> Nat_(R({0, 1, 5, 15, 16, 16, 17, 31, 32, 33, 48, 64, 80, 100}))]
GenSubs(bad) == LET n == R({1, 1, 2, 2, 3, 4}) s == TLCEval([i \in 1..n |-> GenSub(i)]) IN
  IF ~bad THEN s ELSE LET k == R(1..4) j == R(1..n) IN
    CASE k = 1 -> <<>>
      [] k = 2 -> [s EXCEPT ![j].cl = R({N("max", 0 - 1), N("max", 0 - 16), N("half", 0), N("4g", 0)})]
      [] k = 3 -> [s EXCEPT ![j].pr = R({N("max", 0 - 1), N("max", 0 - 16), N("half", 0), N("4g", 0)})]
      [] OTHER -> [s EXCEPT ![j] = R({ [cl |-> N("half", 0), pr |-> N("half", 0)], [cl |-> Nat_(8), pr |-> N("max", 0 - 8)], [cl |-> N("max", 0 - 3), pr |-> Nat_(3)], [cl |-> N("max", 0 - 3), pr |-> Nat_(19)] })]
GenCtr(x) == IF Chance(60) THEN R({N("max", 0 - 1), N("max", 0 - 1), N("max", 0 - 2), N("max", 0 - 3), N("max", 0 - 4), N("max", 0 - 5), N("max", 0 - 8), N("max", 0 - 12)})
             ELSE R({Nat_(0), Nat_(0), Nat_(1), N("half", 0), N("half", 0 - 1), N("4g", 0 - 1), N("4g", 0 - 2), N("60", 0), N("60", 0 - 1), Nat_(255)})
TotalOf(subs) == IF \E i \in DOMAIN subs : ~(Small(subs[i].cl) /\ Small(subs[i].pr)) THEN 40 ELSE SumL(subs, 1)
(* where: <<buffer, offset, clear length>> *)
GenPlace(clear, n, bad) ==
  LET size == IF clear THEN n + R({0, 0, 1, 7, 16}) ELSE SvpSize
      free == Max2(size - n, 0)
      b == IF clear THEN 0 ELSE IF bad /\ Chance(25) THEN R({3, 4}) ELSE R({1, 2})
      off == IF bad THEN R({Nat_(free + 1), Nat_(free + 1), Nat_(free + 2), Nat_(size), Nat_(size + 1), N("max", 0 - Max2(n, 1)), N("max", 0 - 1), N("max", 0 - 16), N("half", 0), N("4g", 0), N("4g", free)}) ELSE Nat_(R({0, 0, free, R(0..free)})) IN
  << b, off, size >>
GenSample(bad) ==     \* bad: what may be wrong with it ("" nothing)
  LET subs == TLCEval(GenSubs(bad = "subs")) pat == GenPat(bad = "pat") c == GenCtx(bad = "ctx")
      n == TotalOf(subs)
      oc == IF n > SvpSize THEN TRUE ELSE IF c \in {"ctr-prot", "cbc-prot"} THEN (bad = "leak" /\ Chance(60)) ELSE Chance(45)
      ic == IF bad = "leak" THEN Chance(50) ELSE IF oc THEN TRUE ELSE n > SvpSize \/ Chance(40)
      i == GenPlace(ic, n, bad = "in") o == GenPlace(oc, n, bad = "out")
      sm == bad = "sm" /\ ic /\ oc /\ ~Pub1
      lap == bad = "lap" /\ ~ic /\ ~oc
      gap == R({0, 1, Max2(n - 1, 0), n, n, n + 1})
      base == R({0, 1, 16})
      o2 == IF sm \/ (lap /\ n + gap + base <= SvpSize) THEN [i |-> Nat_(base), o |-> Nat_(base + gap)] ELSE [i |-> i[2], o |-> o[2]]
      swap == (sm \/ lap) /\ Chance(50)
      x == [c |-> c, cb |-> pat[1], sb |-> pat[2], subs |-> subs, ctr |-> GenCtr(0), ivl |-> IF bad = "iv" THEN R({0, 8, 15, 17, 32}) ELSE 16,
            ib |-> i[1], ob |-> IF lap THEN i[1] ELSE o[1], ioff |-> IF swap THEN o2.o ELSE o2.i, ooff |-> IF swap THEN o2.i ELSE o2.o, il |-> IF sm THEN base + gap + n ELSE i[3], ol |-> IF sm THEN base + gap + n ELSE o[3], sm |-> sm,
            nul |-> IF bad = "nul" THEN R({"iv", "subs", "out", "in"}) ELSE "", cont |-> FALSE] IN
  IF x.ib # 0 /\ x.ib = x.ob /\ ~lap /\ Lap(x, n) /\ bad = "" THEN [x EXCEPT !.ib = 1, !.ob = 2] ELSE x
(* the next sample of a stream that goes on in the same buffers *)
Cont(x) == LET y == GenSample("") n == Total(x) IN [y EXCEPT !.c = x.c, !.ib = x.ib, !.ob = x.ob, !.il = x.il, !.ol = x.ol, !.ioff = Nat_(x.ioff.d + n), !.ooff = Nat_(x.ooff.d + n), !.sm = x.sm, !.cont = TRUE]
GenSamples(x) == LET n == R({1, 1, 1, 2, 2, 3}) at == IF Chance(50) THEN 0 ELSE R(1..n) b == R(1..19)
                     bad == << "subs", "pat", "ctx", "ctx", "ctx", "leak", "leak", "in", "in", "out", "out", "iv", "nul", "sm", "sm", "sm", "lap", "lap", "lap" >>[b]
                     s == TLCEval([i \in 1..n |-> GenSample(IF i = at THEN bad ELSE "")]) IN
  IF at = 0 /\ Chance(60) THEN
    LET c == TLCEval(Cont(s[1])) IN IF SampleFails(st, c) = {} /\ SampleFails(st, s[1]) = {} /\ Total(s[1]) > 0 /\ Total(c) > 0 THEN << s[1], c >> ELSE s
  ELSE s

CallFails(x) == UNION {SampleFails(st, x.samples[i]) : i \in DOMAIN x.samples} \cup F(Pub1 \/ x.u = 1, "session") \cup F(Len(x.samples) > 0, "arg")
ExpectS(s) == s @@ [f |-> SampleFails(st, s), tot |-> IF SmallSubs(s) THEN Total(s) ELSE 0, runs |-> IF SampleFails(st, s) = {} THEN Runs(s) ELSE <<>>]
Expect(a) == LET f == CallFails(a) IN
  [op |-> a.op, u |-> a.u, nul |-> FALSE, why |-> f, samples |-> [i \in DOMAIN a.samples |-> ExpectS(a.samples[i])],
   ok |-> IF f \in {{}, {"arg"}} /\ a.samples = <<>> /\ ~Pub1 THEN "any" ELSE IF f = {} /\ (\E i \in DOMAIN a.samples : SampleOpen(a.samples[i])) THEN "any" ELSE IF f = {} THEN "y" ELSE "n"]

Init == st = [now |-> 100, dig |-> 0] /\ hist = <<>>
Next ==
  \/ /\ Len(hist) < Depth
     /\ \E k \in {R(1..100)} :
          CASE k <= 6 /\ st.now < 260 -> \E d \in {R({30, 60, 99})} : st' = [st EXCEPT !.now = @ + d] /\ hist' = Append(hist, [op |-> "tick", now |-> st.now + d])
            [] k \in 7..12 -> \E n \in {1 - st.dig} : st' = [st EXCEPT !.dig = n] /\ hist' = Append(hist, [op |-> "outs", dig |-> n])
            [] OTHER -> \E a \in {[op |-> "cenc", u |-> IF Chance(97) \/ Pub1 THEN 1 ELSE 2, samples |-> TLCEval(IF k = 13 THEN <<>> ELSE GenSamples(0))]} : hist' = Append(hist, Expect(a)) /\ UNCHANGED st
  \/ /\ Len(hist) = Depth
     /\ PrintT(<<"BEH", ToJson(hist)>>)
     /\ hist' = Append(hist, [op |-> "end"])
     /\ UNCHANGED st
=============================================================================
