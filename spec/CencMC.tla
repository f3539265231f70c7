------------------------------ MODULE CencMC ------------------------------
(* Exhaustively over small samples: the runs cover the sample exactly, agree byte by byte with the standard's wording,
   and decrypt only whole blocks where the scheme demands it. *)
EXTENDS Cenc, TLC
CONSTANTS MaxN, MaxPat
VARIABLE x
Pats == {Nat_(k) : k \in 0..MaxPat} \cup {[b |-> "60", d |-> 0], [b |-> "max", d |-> 0 - 1]}
Init == x \in [c : {"ctr-open", "cbc-open"}, cb : Pats, sb : Pats, subs : {<< [cl |-> Nat_(3), pr |-> Nat_(n)], [cl |-> Nat_(k), pr |-> Nat_(m)] >> : n \in 0..MaxN, m \in {0, 5, 33}, k \in {0, 1}}]
          /\ (x.cb.b = "0" /\ x.cb.d = 0 => x.sb = Nat_(0))
Next == UNCHANGED x
RECURSIVE Expand(_, _)
Expand(rs, i) == IF i > Len(rs) THEN <<>> ELSE (IF rs[i][1] = "r" THEN <<>> ELSE [j \in 1..rs[i][2] |-> rs[i][1]]) \o Expand(rs, i + 1)
Direct(i) == [j \in 1..(x.subs[i].cl.d + x.subs[i].pr.d) |-> IF j <= x.subs[i].cl.d THEN "c" ELSE IF IsDecrypted(x, x.subs[i].pr.d, j - x.subs[i].cl.d - 1) THEN "e" ELSE "c"]
Agree == Expand(Runs(x), 1) = Direct(1) \o Direct(2)
WholeBlocks == \A i \in DOMAIN Runs(x) : Runs(x)[i][1] = "e" /\ (Alg(x.c) = "cbc" \/ ~Whole(x)) => Runs(x)[i][2] % 16 = 0
=============================================================================
