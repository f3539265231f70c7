-------------------------------- MODULE Conc --------------------------------
(* The service as an object that is used by several threads at once: what one call, taken by itself, does to the state and
   what it may answer.  ConcTrace uses this to decide whether a recorded concurrent history is explained by some order of its
   calls (P13); ObjStore.tla describes, at the level of locks and reference counts, how the implementation gets there.

   State   ses : session number -> the application that opened it
           obj : <<kind, session, handle>> -> object          kinds "k" key, "c" cipher, "m" mac, "b" protected buffer
           fill: <<kind, session>> -> handles taken by objects nobody refers to
           exp : thread -> value of the key it exported last
   A key value is a number (value v, and 10 more for every derivation), -1 when it is not known.  A buffer has two cells of one cipher
   block; a cell holds a pattern v (-1: not known) on which the key stream blocks in ks have been laid.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANT Slots

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Empty == [x \in {} |-> 0]
InitSt == [ses |-> Empty, obj |-> Empty, fill |-> Empty, exp |-> Empty]

MaySes(st, o) == o.s \in DOMAIN st.ses /\ st.ses[o.s] = o.u
Has(st, kind, o, h) == MaySes(st, o) /\ <<kind, o.s, h>> \in DOMAIN st.obj
Filled(st, kind, s) == IF <<kind, s>> \in DOMAIN st.fill THEN st.fill[<<kind, s>>] ELSE {}
Count(st, kind, s) == Cardinality({x \in DOMAIN st.obj : x[1] = kind /\ x[2] = s}) + Cardinality(Filled(st, kind, s))

Unknown == [v |-> -1, ks |-> {}]
Xor(A, b) == IF b \in A THEN A \ {b} ELSE A \cup {b}
(* encrypting or decrypting a cell lays one more block of key stream on it *)
Lay(cell, v, iv, n) == IF cell.v = -1 \/ v = -1 \/ n = -1 THEN Unknown ELSE [cell EXCEPT !.ks = Xor(@, <<v, iv, n>>)]
Plain(cell) == cell.ks = {}

KindOf(op) == CASE op \in {"kimp", "kgen", "kder", "kimpx", "krel"} -> "k" [] op \in {"cini", "crel"} -> "c" [] op \in {"mini", "mrel"} -> "m" [] OTHER -> "b"
Releases == {"krel", "crel", "mrel", "srel"}
Creates == {"kimp", "kgen", "kder", "kimpx", "cini", "mini", "salloc"}

Refuse(st) == {[st |-> st, r |-> [ok |-> FALSE]]}
Ok(st, r) == {[st |-> st, r |-> r]}
Done(st) == {[st |-> st, r |-> [ok |-> TRUE]]}

(* a creating call: the handle is the implementation's choice, as long as it is not in use.  releasing: how many calls that give back a
   place of this kind are going on (a release takes the handle out of use and gives its place back in two steps) *)
Create(st, o, kind, rec, releasing) ==
  IF ~MaySes(st, o) THEN Refuse(st)
  ELSE LET n == Count(st, kind, o.s) + releasing IN
    (IF Count(st, kind, o.s) < Slots /\ o.r.ok /\ <<kind, o.s, o.r.h>> \notin DOMAIN st.obj /\ o.r.h \notin Filled(st, kind, o.s)
       THEN Ok([st EXCEPT !.obj = Put(@, <<kind, o.s, o.r.h>>, rec)], [ok |-> TRUE, h |-> o.r.h]) ELSE {})
    \cup (IF n >= Slots THEN Refuse(st) ELSE {})
Release(st, o, kind) == IF Has(st, kind, o, o.h) THEN Done([st EXCEPT !.obj = Drop(@, {<<kind, o.s, o.h>>})]) ELSE Refuse(st)

(* Calls that make an object out of a key read the key first and find a place for the object afterwards: these are two moments, between
   which the key may be released, and its handle may become the handle of the object.  Base is what is read at the first moment. *)
FromKey == {"kder", "cini", "mini"}
Base(st, o) == IF Has(st, "k", o, o.h) THEN {st.obj[<<"k", o.s, o.h>>].v} ELSE {}
Made(o, v) == CASE o.op = "kder" -> [v |-> IF v = -1 THEN -1 ELSE v + 10] [] o.op = "cini" -> [v |-> v, iv |-> o.iv, n |-> 0] [] o.op = "mini" -> [v |-> v, d |-> <<>>, done |-> FALSE]
Place(st, o, v, releasing) == Create(st, o, KindOf(o.op), Made(o, v), releasing)

(* What call o may do in state st: a set of [st, r].  o.r is what it did answer; only the choice of a handle is taken from there. *)
Apply(st, o, releasing) ==
  LET K(h) == st.obj[<<"k", o.s, h>>] IN
  CASE o.op = "open" -> IF o.r.ok /\ o.r.h \notin DOMAIN st.ses THEN Ok([st EXCEPT !.ses = Put(@, o.r.h, o.u)], [ok |-> TRUE, h |-> o.r.h]) ELSE {}
    [] o.op = "close" -> IF MaySes(st, o) THEN Done([st EXCEPT !.ses = Drop(@, {o.s}), !.obj = Drop(@, {x \in DOMAIN @ : x[2] = o.s}), !.fill = Drop(@, {x \in DOMAIN @ : x[2] = o.s})]) ELSE Refuse(st)
    (* one thread creates objects until it is refused and releases o.left of them again *)
    [] o.op = "fill" -> LET hs == {o.r.hs[i] : i \in 1..Len(o.r.hs)} IN
                        IF MaySes(st, o) /\ Cardinality(hs) = Len(o.r.hs) /\ Len(o.r.hs) + o.left = Slots - Count(st, o.kind, o.s) /\ \A x \in hs : <<o.kind, o.s, x>> \notin DOMAIN st.obj
                        THEN Ok([st EXCEPT !.fill = Put(@, <<o.kind, o.s>>, hs)], o.r) ELSE {}
    [] o.op = "kimp" -> Create(st, o, "k", [v |-> o.v], releasing)
    [] o.op = "kgen" -> Create(st, o, "k", [v |-> -1], releasing)
    [] o.op \in FromKey -> IF Base(st, o) = {} THEN Refuse(st) ELSE UNION {Place(st, o, v, releasing) : v \in Base(st, o)}
    [] o.op = "kexp" -> IF Has(st, "k", o, o.h) THEN Done([st EXCEPT !.exp = Put(@, o.t, K(o.h).v)]) ELSE Refuse(st)
    [] o.op = "kimpx" -> IF o.t \in DOMAIN st.exp THEN Create(st, o, "k", [v |-> st.exp[o.t]], releasing) ELSE Refuse(st)
    [] o.op = "kdig" -> IF Has(st, "k", o, o.h) THEN Ok(st, [ok |-> TRUE, v |-> K(o.h).v]) ELSE Refuse(st)
    [] o.op = "krel" -> Release(st, o, "k")
    [] o.op = "cpro" -> IF ~Has(st, "c", o, o.h) THEN Refuse(st)
                        ELSE LET c == st.obj[<<"c", o.s, o.h>>] IN IF c.n = -1 THEN (IF o.r.ok THEN Ok(st, o.r) ELSE {})
                             ELSE Ok([st EXCEPT !.obj[<<"c", o.s, o.h>>].n = @ + 1], IF c.v = -1 THEN [ok |-> TRUE, v |-> -1] ELSE [ok |-> TRUE, v |-> c.v, iv |-> c.iv, n |-> c.n])
    [] o.op = "civ" -> IF ~Has(st, "c", o, o.h) THEN Refuse(st) ELSE Done([st EXCEPT !.obj[<<"c", o.s, o.h>>] = [@ EXCEPT !.iv = o.iv, !.n = 0]])
    [] o.op = "crel" -> Release(st, o, "c")
    [] o.op = "mpro" -> IF ~Has(st, "m", o, o.h) \/ st.obj[<<"m", o.s, o.h>>].done THEN Refuse(st) ELSE Done([st EXCEPT !.obj[<<"m", o.s, o.h>>].d = Append(@, o.d)])
    [] o.op = "mcom" -> IF ~Has(st, "m", o, o.h) \/ st.obj[<<"m", o.s, o.h>>].done THEN Refuse(st)
                        ELSE LET m == st.obj[<<"m", o.s, o.h>>] IN Ok([st EXCEPT !.obj[<<"m", o.s, o.h>>].done = TRUE], IF m.v = -1 THEN [ok |-> TRUE, v |-> -1] ELSE [ok |-> TRUE, v |-> m.v, d |-> m.d])
    [] o.op = "mrel" -> Release(st, o, "m")
    [] o.op = "salloc" -> Create(st, o, "b", [c |-> <<Unknown, Unknown>>, mem |-> o.id], releasing)
    [] o.op = "srel" -> IF Has(st, "b", o, o.h) THEN Ok([st EXCEPT !.obj = Drop(@, {<<"b", o.s, o.h>>})], [ok |-> TRUE, mem |-> st.obj[<<"b", o.s, o.h>>].mem]) ELSE Refuse(st)
    [] o.op = "swr" -> IF Has(st, "b", o, o.h) THEN Done([st EXCEPT !.obj[<<"b", o.s, o.h>>].c[o.x] = [v |-> o.v, ks |-> {}]]) ELSE Refuse(st)
    (* copies both cells, exchanged when o.x = 2 *)
    [] o.op = "scp" -> IF ~Has(st, "b", o, o.h) \/ ~Has(st, "b", o, o.h2) \/ o.h = o.h2 THEN IF o.h = o.h2 /\ Has(st, "b", o, o.h) THEN Refuse(st) \cup Done(IF o.x = 2 THEN [st EXCEPT !.obj[<<"b", o.s, o.h>>].c = <<Unknown, Unknown>>] ELSE st) ELSE Refuse(st)
                       ELSE LET c == st.obj[<<"b", o.s, o.h2>>].c IN Done([st EXCEPT !.obj[<<"b", o.s, o.h>>].c = IF o.x = 2 THEN <<c[2], c[1]>> ELSE c])
    [] o.op = "schk" -> IF o.ree \/ ~Has(st, "b", o, o.h) THEN Refuse(st)
                        ELSE LET c == st.obj[<<"b", o.s, o.h>>].c[o.x] IN IF c.v = -1 THEN Refuse(st) \cup Done(st) ELSE IF Plain(c) /\ c.v = o.v THEN Done(st) ELSE Refuse(st)
    (* cell o.x of buffer h2 through the cipher into cell o.x of buffer h *)
    [] o.op = "sci" -> IF ~Has(st, "b", o, o.h) \/ ~Has(st, "b", o, o.h2) \/ ~Has(st, "c", o, o.c) THEN Refuse(st)
                       ELSE LET c == st.obj[<<"c", o.s, o.c>>] IN
                         Done([st EXCEPT !.obj = Put(Put(@, <<"c", o.s, o.c>>, [c EXCEPT !.n = IF @ = -1 THEN -1 ELSE @ + 1]), <<"b", o.s, o.h>>, [st.obj[<<"b", o.s, o.h>>] EXCEPT !.c[o.x] = Lay(st.obj[<<"b", o.s, o.h2>>].c[o.x], c.v, c.iv, c.n)])])
    (* one common-encryption sample with its own initialisation vector; input and output must not overlap.  Where it leaves the
       cipher's position is not said (n = -1) until the next initialisation vector is set *)
    [] o.op = "scenc" -> IF ~Has(st, "b", o, o.h) \/ ~Has(st, "b", o, o.h2) \/ ~Has(st, "c", o, o.c) \/ o.h = o.h2 THEN Refuse(st)
                         ELSE LET c == st.obj[<<"c", o.s, o.c>>] IN
                           Done([st EXCEPT !.obj = Put(Put(@, <<"c", o.s, o.c>>, [c EXCEPT !.n = -1]), <<"b", o.s, o.h>>, [st.obj[<<"b", o.s, o.h>>] EXCEPT !.c[o.x] = Lay(st.obj[<<"b", o.s, o.h2>>].c[o.x], c.v, o.iv, 0)])])
    (* how many more objects of a kind can be created, counted by one thread alone *)
    [] o.op = "capn" -> IF MaySes(st, o) THEN Ok(st, [ok |-> TRUE, n |-> Slots - Count(st, o.kind, o.s)]) ELSE Ok(st, [ok |-> TRUE, n |-> 0])
    [] OTHER -> {}
=============================================================================
