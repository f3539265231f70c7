------------------------------- MODULE ConcGen -------------------------------
(* Random programs for several threads (tlc -simulate): objects made beforehand, then what every thread calls.  References to objects
   are resolved when the program runs: n >= 0 is the object made beforehand with that index (its kind is clear from the call),
   -n the n-th object of the kind that the same thread made. *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Profile, Threads, Calls, Pub1
VARIABLES prog
R(S) == IF prog = <<>> THEN 0 ELSE RandomElement(S)      \* mentions the state: drawn anew every time
Chance(p) == R(1..100) <= p
Ops == CASE Profile = "key" -> << "kimp", "kimp", "krel", "krel", "kdig", "kdig", "kder", "kexp", "kimpx", "cini", "kgen" >>
         [] Profile = "cipher" -> << "cini", "cpro", "cpro", "cpro", "cpro", "civ", "crel", "crel", "krel", "kimp" >>
         [] Profile = "mac" -> << "mini", "mpro", "mpro", "mpro", "mcom", "mcom", "mrel", "mrel", "krel" >>
         [] Profile = "svp" -> << "salloc", "srel", "srel", "swr", "swr", "scp", "scp", "scp", "schk", "schk", "sci", "sci", "scenc", "cpro", "crel" >>
         [] Profile = "ses" -> << "open", "close", "close", "kimp", "kdig", "krel", "salloc", "swr", "cpro", "kder" >>
         [] Profile = "cap" -> << "kimp", "krel", "salloc", "srel", "cini", "crel", "mini", "mrel", "kder", "kdig" >>
         [] Profile = "twin" -> << "krel", "crel", "mrel", "srel", "kdig", "cpro", "mcom", "schk", "cini", "kimp", "salloc", "mini" >>
         [] OTHER -> << "kimp", "krel", "kdig", "kder", "cini", "cpro", "cpro", "civ", "crel", "mini", "mpro", "mcom", "mrel", "salloc", "srel", "swr", "scp", "schk", "sci", "scenc", "kexp", "kimpx" >>
(* objects made beforehand: few, so that the threads meet *)
NKeys == 2
NObjs == IF Profile = "twin" THEN 1 ELSE 2
NBufs == IF Profile = "twin" THEN 1 ELSE 3
Ref(n) == IF Chance(70) THEN R(0..(n - 1)) ELSE 0 - R(1..2)
Ses == IF Pub1 THEN 0 ELSE IF Profile = "ses" THEN (LET k == R(1..6) IN IF k = 1 THEN 1 ELSE IF k <= 3 THEN -1 ELSE 0) ELSE IF Chance(92) THEN 0 ELSE 1
Who(s) == IF Pub1 THEN 0 ELSE IF Chance(95) THEN 0 ELSE 1
Data(op) ==
  LET s == Ses u == Who(s) b == [op |-> op, s |-> s, u |-> u] IN
  CASE op = "open" -> b
    [] op = "close" -> b
    [] op = "kimp" -> b @@ [v |-> R(1..3)]
    [] op \in {"kgen", "kimpx", "salloc"} -> b
    [] op \in {"kder", "kexp", "kdig", "krel", "mini"} -> b @@ [h |-> Ref(NKeys)]
    [] op = "cini" -> b @@ [h |-> Ref(NKeys), iv |-> R(1..2)]
    [] op \in {"cpro", "crel", "mcom", "mrel"} -> b @@ [h |-> Ref(NObjs)]
    [] op = "civ" -> b @@ [h |-> Ref(NObjs), iv |-> R(1..2)]
    [] op = "mpro" -> b @@ [h |-> Ref(NObjs), d |-> R(1..2)]
    [] op = "srel" -> b @@ [h |-> Ref(NBufs)]
    [] op \in {"swr", "schk"} -> b @@ [h |-> Ref(NBufs), x |-> R(1..2), v |-> R(1..2)]
    [] op = "scp" -> b @@ [h |-> Ref(NBufs), h2 |-> Ref(NBufs), x |-> R(1..2)]
    [] op \in {"sci", "scenc"} -> b @@ [h |-> Ref(NBufs), h2 |-> Ref(NBufs), c |-> Ref(NObjs), x |-> R(1..2), iv |-> R(1..2)]
Fresh(fl) == [setup |-> [keys |-> NKeys, objs |-> NObjs, bufs |-> NBufs, ses |-> IF Pub1 THEN 1 ELSE 2, fill |-> fl], threads |-> [t \in 1..Threads |-> <<>>]]
Init == \E fl \in (IF Profile = "cap" THEN 0..2 ELSE {-1}) : prog = Fresh(fl)
Short == {t \in 1..Threads : Len(prog.threads[t]) < Calls}
Next ==
  \/ /\ Short # {}
     /\ \E t \in {R(Short)} : \E op \in {Ops[R(1..Len(Ops))]} : \E a \in {Data(op)} : prog' = [prog EXCEPT !.threads[t] = Append(@, a)]
  \/ /\ Short = {}
     /\ PrintT(<<"BEH", ToJson(prog)>>)
     /\ \E fl \in {IF Profile = "cap" THEN R(0..2) ELSE -1} : prog' = Fresh(fl)
=============================================================================
