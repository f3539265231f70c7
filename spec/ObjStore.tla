------------------------------ MODULE ObjStore ------------------------------
(* How the implementation keeps objects alive and calls apart: a store of objects with reference counts below a store of clients with
   reference counts, and a lock in every object.  What Conc.tla states as one step of a call is here the sequence of critical sections
   it is made of; the model is explored exhaustively for small programs: no object is used or destroyed while another call has it, no
   count goes wrong, nothing waits for ever, and every call finishes.

   A critical section of a store's mutex is one step: nothing waits inside it and the fields are not touched outside of it.  (That the
   implementation keeps to this is what the runs under ThreadSanitizer and under controlled schedules check.) *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, Slots, Calls, Ordered    \* Ordered: a call with two objects takes them in the order of their slots
VARIABLES todo, pc, has, obj, ref, next, lock, count, dead, alive, cref, shut
vars == <<todo, pc, has, obj, ref, next, lock, count, dead, alive, cref, shut>>
T == 1..Threads
S == 1..Slots
None == 0
Ops == [k : {"use"}, a : S, b : {1}] \cup [k : {"copy"}, a : S, b : S] \cup [k : {"rel"}, a : S, b : {1}] \cup [k : {"new", "close"}, a : {1}, b : {1}]
Programs == [1..Calls -> Ops]
Ids == 1..(Slots + Threads * Calls)
Init == /\ todo \in [T -> Programs] /\ pc = [t \in T |-> "call"] /\ has = [t \in T |-> <<>>]
        /\ obj = [s \in S |-> s] /\ ref = [s \in S |-> 0] /\ next = Slots + 1 /\ lock = [o \in Ids |-> None] /\ count = [o \in Ids |-> 0]
        /\ dead = {} /\ alive = TRUE /\ cref = 0 /\ shut = FALSE
Op(t) == todo[t][1]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
First(t) == IF Op(t).k = "copy" /\ Ordered /\ Op(t).b < Op(t).a THEN Op(t).b ELSE Op(t).a
Second(t) == IF Op(t).k = "copy" /\ Ordered /\ Op(t).b < Op(t).a THEN Op(t).a ELSE Op(t).b

Client(t) == /\ pc[t] = "call" /\ todo[t] # <<>>
             /\ IF Op(t).k = "close" THEN Go(t, "close") /\ UNCHANGED cref
                ELSE IF alive THEN cref' = cref + 1 /\ Go(t, CASE Op(t).k = "new" -> "add" [] Op(t).k = "rel" -> "remove" [] OTHER -> "take1")
                ELSE Go(t, "end") /\ UNCHANGED cref
             /\ UNCHANGED <<todo, has, obj, ref, next, lock, count, dead, alive, shut>>
Drop(t) == pc[t] = "drop" /\ cref' = cref - 1 /\ Go(t, "end") /\ UNCHANGED <<todo, has, obj, ref, next, lock, count, dead, alive, shut>>
End(t) == pc[t] = "end" /\ todo' = [todo EXCEPT ![t] = Tail(@)] /\ Go(t, "call") /\ UNCHANGED <<has, obj, ref, next, lock, count, dead, alive, cref, shut>>

(* taking an object: its count goes up inside the store's mutex, then its own lock is taken *)
Take(t, at, s, locked, failed) ==
  /\ pc[t] = at
  /\ IF obj[s] = None \/ shut THEN Go(t, failed) /\ UNCHANGED <<ref, has>>
     ELSE ref' = [ref EXCEPT ![s] = @ + 1] /\ has' = [has EXCEPT ![t] = Append(@, <<s, obj[s]>>)] /\ Go(t, locked)
  /\ UNCHANGED <<todo, obj, next, lock, count, dead, alive, cref, shut>>
Lock(t, at, n, then) ==
  /\ pc[t] = at /\ LET o == has[t][n][2] IN lock[o] \in {None, t} /\ lock' = [lock EXCEPT ![o] = t] /\ count' = [count EXCEPT ![o] = @ + 1]
  /\ Go(t, then) /\ UNCHANGED <<todo, has, obj, ref, next, dead, alive, cref, shut>>
Work(t) == pc[t] = "work" /\ Go(t, "unlock") /\ UNCHANGED <<todo, has, obj, ref, next, lock, count, dead, alive, cref, shut>>
Last(t) == has[t][Len(has[t])]
Unlock(t) == /\ pc[t] = "unlock" /\ LET o == Last(t)[2] IN count' = [count EXCEPT ![o] = @ - 1] /\ lock' = [lock EXCEPT ![o] = IF count[o] = 1 THEN None ELSE @]
             /\ Go(t, "give") /\ UNCHANGED <<todo, has, obj, ref, next, dead, alive, cref, shut>>
Give(t) == /\ pc[t] = "give" /\ ref' = [ref EXCEPT ![Last(t)[1]] = @ - 1] /\ has' = [has EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
           /\ Go(t, IF Len(has[t]) = 1 THEN "drop" ELSE "unlock") /\ UNCHANGED <<todo, obj, next, lock, count, dead, alive, cref, shut>>
(* removing an object: only when nobody refers to it; looked at again and again until then *)
Remove(t) == /\ pc[t] = "remove" /\ LET s == Op(t).a IN
                  IF obj[s] = None \/ shut THEN Go(t, "drop") /\ UNCHANGED <<obj, dead>>
                  ELSE ref[s] = 0 /\ dead' = dead \cup {obj[s]} /\ obj' = [obj EXCEPT ![s] = None] /\ Go(t, "drop")
             /\ UNCHANGED <<todo, has, ref, next, lock, count, alive, cref, shut>>
Add(t) == /\ pc[t] = "add" /\ LET f == {s \in S : obj[s] = None} IN
               IF f = {} \/ shut THEN Go(t, "drop") /\ UNCHANGED <<obj, next>>
               ELSE \E s \in f : obj' = [obj EXCEPT ![s] = next] /\ next' = next + 1 /\ Go(t, "drop")
          /\ UNCHANGED <<todo, has, ref, lock, count, dead, alive, cref, shut>>
(* closing: the client leaves the store of clients when no call refers to it, then its objects go *)
Close(t) == /\ pc[t] = "close" /\ IF ~alive THEN Go(t, "end") /\ UNCHANGED alive ELSE cref = 0 /\ alive' = FALSE /\ Go(t, "shut")
            /\ UNCHANGED <<todo, has, obj, ref, next, lock, count, dead, cref, shut>>
Shut(t) == pc[t] = "shut" /\ shut' = TRUE /\ Go(t, "clear") /\ UNCHANGED <<todo, has, obj, ref, next, lock, count, dead, alive, cref>>
Clear(t) == /\ pc[t] = "clear" /\ LET f == {s \in S : obj[s] # None} IN
                 IF f = {} THEN Go(t, "end") /\ UNCHANGED <<obj, dead>> ELSE \E s \in f : ref[s] = 0 /\ dead' = dead \cup {obj[s]} /\ obj' = [obj EXCEPT ![s] = None] /\ UNCHANGED pc
            /\ UNCHANGED <<todo, has, ref, next, lock, count, alive, cref, shut>>
Step(t) == \/ Client(t) \/ Drop(t) \/ End(t) \/ Work(t) \/ Unlock(t) \/ Give(t) \/ Remove(t) \/ Add(t) \/ Close(t) \/ Shut(t) \/ Clear(t)
           \/ Take(t, "take1", First(t), "lock1", "drop") \/ Lock(t, "lock1", 1, IF Op(t).k = "copy" THEN "take2" ELSE "work")
           \/ Take(t, "take2", Second(t), "lock2", "unlock") \/ Lock(t, "lock2", 2, "work")
Done == \A t \in T : todo[t] = <<>> /\ pc[t] = "call"
Next == (\E t \in T : todo[t] # <<>> /\ Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(todo[t] # <<>> /\ Step(t))

Counts == \A s \in S : ref[s] = Cardinality({<<t, i>> \in T \X {1, 2} : i <= Len(has[t]) /\ has[t][i][1] = s})
InUse == {has[t][i][2] : <<t, i>> \in {x \in T \X {1, 2} : x[2] <= Len(has[x[1]])}}
NoUseAfterFree == InUse \cap dead = {}
DeadUnlocked == \A o \in dead : lock[o] = None
ClientCount == cref = Cardinality({t \in T : todo[t] # <<>> /\ Op(t).k # "close" /\ pc[t] \notin {"call", "end"}})
GoneIsEmpty == ~alive => cref = 0
OneAtATime == \A o \in Ids : lock[o] # None => Cardinality({t \in T : pc[t] = "work" /\ \E i \in 1..Len(has[t]) : has[t][i][2] = o}) <= 1
NothingLeft == Done => \A s \in S : ref[s] = 0 /\ (~alive => obj[s] = None)
CanGo == Done \/ \E t \in T : todo[t] # <<>> /\ ENABLED Step(t)
Finishes == <>Done
=============================================================================
