------------------------------- MODULE MiscGen -------------------------------
EXTENDS Misc, TLC, Json
CONSTANTS Depth, Pub1, What        \* What: "facts", "msg", or the calls with huge sizes: "random", "stream", "wrapped"
VARIABLES st, hist

R(S) == RandomElement(IF st.drawn >= 0 THEN S ELSE {})
Chance(p) == R(1..100) <= p
Ok(f, open) == IF f # {} THEN "n" ELSE IF open THEN "any" ELSE "y"
Fact(x) == LET a == [op |-> R(Facts), u |-> IF Pub1 THEN 1 ELSE R(1..2), null |-> Chance(8)] f == FactFails(st, a) IN [ok |-> Ok(f, FALSE), why |-> f] @@ a
Name(x) == LET a == [op |-> "name", u |-> IF Pub1 THEN 1 ELSE R(1..2), buf |-> R(BufKinds), nolen |-> Chance(5), by |-> R({1, 2, 7, 200})] f == NameFails(st, a) IN [ok |-> Ok(f, FALSE), why |-> f, written |-> NameWritten(a)] @@ a
Random(x) == LET a == [op |-> "random", u |-> IF Pub1 THEN 1 ELSE R(1..2), null |-> Chance(5), n |-> R({0, 1, 2, 15, 16, 17, 31, 32, 100, 256, 1000, 4096, 65536, 100001})] f == RandomFails(st, a) IN [ok |-> Ok(f, RandomOpen(a)), why |-> f] @@ a
Svps(x) == [op |-> "svps", u |-> IF Pub1 THEN 1 ELSE R(1..2), ok |-> IF st.auth THEN "y" ELSE "n", why |-> F(st.auth, "auth")]
HugeOf == CASE What = "random" -> {"random"} [] What = "stream" -> {"process", "last", "aad"} [] What = "wrapped" -> {"unwrap", "unwrapaad", "label"} [] OTHER -> {}
GenHuge(x) == \E op \in {R(HugeOf)} : \E alg \in {R(HugeAlgs(op))} : \E h \in {R({g \in Huge : CASE op = "random" -> g.giga = 2 /\ g.more = 4096 [] op \in {"process", "last", "aad"} -> TRUE [] OTHER -> g.more # 0})} : \E enc \in {R(BOOLEAN)} :
  hist' = Append(hist, [op |-> "huge", what |-> op, alg |-> alg, giga |-> h.giga, more |-> h.more, enc |-> enc, ok |-> HugeVerdict(op)]) /\ UNCHANGED st

Init == st = [auth |-> TRUE, drawn |-> 0] /\ hist = <<>>
Next ==
  \/ /\ Len(hist) < Depth /\ HugeOf # {} /\ GenHuge(st)
  \/ /\ Len(hist) < Depth /\ What = "msg" /\ hist' = Append(hist, [op |-> "provmsg", ok |-> "n"]) /\ UNCHANGED st
  \/ /\ Len(hist) < Depth /\ What = "facts"
     /\ IF Pub1 /\ (IF st.auth THEN Chance(5) ELSE Chance(40)) THEN st' = [st EXCEPT !.auth = ~@] /\ hist' = Append(hist, [op |-> "auth", on |-> st'.auth])
        ELSE \E k \in {R(1..10)} : \E a \in {CASE k <= 3 -> TLCEval(Fact(st)) [] k <= 6 -> TLCEval(Name(st)) [] k <= 9 -> TLCEval(Random(st)) [] OTHER -> TLCEval(Svps(st))} :
             hist' = Append(hist, a) /\ st' = IF a.op = "random" /\ a.ok = "y" THEN [st EXCEPT !.drawn = @ + a.n] ELSE st
  \/ /\ Len(hist) = Depth
     /\ PrintT(<<"BEH", ToJson(hist)>>)
     /\ hist' = Append(hist, [op |-> "end"])
     /\ UNCHANGED st
=============================================================================
