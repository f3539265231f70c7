------------------------------ MODULE ConcTrace ------------------------------
(* Decides, for every recorded history of calls and returns, whether some order of the calls that respects real time explains
   all results.  A history is accepted when a behaviour of this specification reaches its end; accepted numbers are printed. *)
EXTENDS Conc, TLC, Json, IOUtils
Histories == ndJsonDeserialize(IOEnv.HISTORIES)
N == Len(Histories)
VARIABLES h, i, st, pend, infl, base
vars == <<h, i, st, pend, infl, base>>
H == Histories[h]
Op(n) == H.ops[n]
Init == h \in 1..N /\ i = 1 /\ st = InitSt /\ pend = {} /\ infl = {} /\ base = Empty
Releasing(o) == Cardinality({n \in infl : n # o.id /\ Op(n).op \in Releases /\ KindOf(Op(n).op) = KindOf(o.op) /\ Op(n).s = o.s})
Call == i <= Len(H.ev) /\ H.ev[i][1] = 0 /\ LET n == H.ev[i][2] IN pend' = pend \cup {n} /\ infl' = infl \cup {n} /\ i' = i + 1 /\ UNCHANGED <<h, st, base>>
Take == \E n \in pend : n \notin DOMAIN base /\ \E e \in Apply(st, Op(n), Releasing(Op(n))) : e.r = Op(n).r /\ st' = e.st /\ pend' = pend \ {n} /\ UNCHANGED <<h, i, infl, base>>
(* a call that makes an object out of a key, in two moments; done as one by Take unless another call comes in between *)
Read == \E n \in pend : Op(n).op \in FromKey /\ n \notin DOMAIN base /\ Op(n).r.ok /\ infl # {n} /\ \E v \in Base(st, Op(n)) : base' = Put(base, n, v) /\ UNCHANGED <<h, i, st, pend, infl>>
Put2 == \E n \in DOMAIN base : \E e \in Place(st, Op(n), base[n], Releasing(Op(n))) : e.r = Op(n).r /\ st' = e.st /\ pend' = pend \ {n} /\ base' = Drop(base, {n}) /\ UNCHANGED <<h, i, infl>>
Return == i <= Len(H.ev) /\ H.ev[i][1] = 1 /\ H.ev[i][2] \notin pend /\ infl' = infl \ {H.ev[i][2]} /\ i' = i + 1 /\ UNCHANGED <<h, st, pend, base>>
Next == Call \/ Take \/ Read \/ Put2 \/ Return
Spec == Init /\ [][Next]_vars
Report == i <= Len(H.ev) \/ PrintT(<<"ACC", h>>)
=============================================================================
