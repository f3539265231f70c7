------------------------------- MODULE SvpMC -------------------------------
(* Every behaviour of Svp with small buffers, checked exhaustively: no secret byte reaches client memory, and a step
   changes only the bytes that the call names.  *)
EXTENDS Svp, TLC
CONSTANTS MaxBuf, MaxSize, MaxTk
VARIABLES st
Owners == <<1, 0>>
A(op, s, f) == [op |-> op, s |-> s, u |-> Owners[s]] @@ f
Live(s) == {b \in DOMAIN st.buf : st.buf[b].live /\ st.buf[b].s = s}
Ranges(on, in) == { << [oo |-> Nat_(o), io |-> Nat_(i), l |-> Nat_(l)] >> : o \in 0..on, i \in 0..in, l \in 1..(MaxSize + 1) }
Places(s) == {<<0, 0>>} \cup UNION {{<<b, o>> : o \in 0..Len(st.buf[b].c)} : b \in DOMAIN st.buf}
Do(a) == /\ Fails(st, a) = {} /\ ~OpenCase(st, a) /\ st' = Step(st, a) /\ st'.tk <= MaxTk
         /\ Assert(Contained(st, a), <<"changes more than it names", a>>)
Init == st = [InitSt EXCEPT !.ses = Owners]
Next == \E s \in 1..2 :
  \/ Len(st.buf) < MaxBuf /\ \E n \in 1..MaxSize : Do(A("bcreate", s, [n |-> Nat_(n), nul |-> ""]))
  \/ \E b \in DOMAIN st.buf : Do(A("brel", s, [b |-> b]))
  \/ \E b \in Live(s) : \E r \in Ranges(Len(st.buf[b].c), 1) : Do(A("bwrite", s, [b |-> b, il |-> 1, rs |-> r, nul |-> ""]))
  \/ \E b, i \in Live(s) : \E r \in Ranges(Len(st.buf[b].c), Len(st.buf[i].c)) : Do(A("bcopy", s, [b |-> b, ib |-> i, rs |-> r, nul |-> ""]))
  \/ \E k \in {"prot", "open"} : \E i, o \in Places(s) : Do(A("cproc", s, [k |-> k, alg |-> "ctr", ib |-> i[1], ioff |-> Nat_(i[2]), il |-> 1, ob |-> o[1], ooff |-> Nat_(o[2]), ol |-> 1, n |-> Nat_(1)]))
NoLeakInv == NoLeak(st)
=============================================================================
