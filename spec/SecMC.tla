------------------------------ MODULE SecMC ------------------------------
(***************************************************************************)
(* Every behaviour of SecApi over small scopes, checked exhaustively       *)
(* against the properties in their own words (written here without the     *)
(* refusal rules of SecApi): who may use what (P01), what becomes of        *)
(* rights along chains of keys (P02, P06), who can change what (P03),      *)
(* how many objects there can be and what happens to a name (P04), that    *)
(* refused calls change nothing (P05), and the end of streams (P07, P08).  *)
(***************************************************************************)
EXTENDS SecApi, TLC
CONSTANTS Scope, MaxK, MaxC, MaxS, Deep
VARIABLES st, from        \* from[k] = the key that key k was made from (0: none), what was asked for, and how
vars == <<st, from>>

---------------------------------------------------------------------------
(* the calls of a scope *)
W(f, c) == [f |-> f, c |-> c, nb |-> 0, na |-> 5000, ta |-> "all"]
RightsSet ==
  CASE Scope = "perm" -> {[f |-> f \cup {"so"}, c |-> {}, nb |-> w[1], na |-> w[2], ta |-> t] : f \in SUBSET (IF Deep THEN {"E", "S", "au", "d22"} ELSE {"E", "au"}), w \in {<<100, 102>>, <<101, 101>>, <<0, 101>>}, t \in {"u1", "u2"}}
                          \cup {[f |-> f, c |-> {}, nb |-> 0, na |-> 5000, ta |-> "all"] : f \in SUBSET (IF Deep THEN {"C", "D", "so", "d14"} ELSE {"D", "so", "d14"})}
    [] Scope = "chain" -> {W(f \cup {"so"}, c) : f \in SUBSET (IF Deep THEN {"D", "W", "C", "au", "ca"} ELSE {"D", "W", "au", "ca"}), c \in IF Deep THEN {{}, {"C"}, {"D", "W"}} ELSE {{}, {"D"}}}
    [] OTHER -> {W(AllFlags, {})}
Users == IF Scope \in {"iso", "perm"} THEN {1, 2} ELSE {1}
Outs == IF Scope # "perm" THEN {InitOuts} ELSE {InitOuts, [InitOuts EXCEPT !.au = 1], [InitOuts EXCEPT !.d22 = 1, !.d14 = 1], [InitOuts EXCEPT !.poll = FALSE], [InitOuts EXCEPT !.svp = FALSE]}
Ids(tab) == DOMAIN tab \cup (IF Len(tab) = 0 THEN {} ELSE {Len(tab) + 1})      \* also a name never given
A(op, s, u, f) == [op |-> op, s |-> s, u |-> u] @@ f
Buf(n) == [n |-> n, q |-> FALSE, ib |-> 0, ob |-> 0, io |-> 0, oo |-> 0, cd |-> 0, bt |-> "", short |-> FALSE, v |-> 1, pv |-> "ok"]
Import(s, u) == {A("kimport", s, u, [bad |-> "", t |-> "sym", n |-> n, cv |-> "", r |-> r, v |-> 1]) : r \in RightsSet, n \in IF Scope = "stream" THEN {32} ELSE {16}}
Derive(s, u) == {A("derive", s, u, [alg |-> "hkdf", k |-> k, k2 |-> 0, n |-> 16, dg |-> "sha256", sl |-> 0, il |-> 0, v |-> 1, ctr |-> 1, bad |-> "", r |-> r]) : k \in Ids(st.keys), r \in IF Scope = "chain" THEN RightsSet ELSE {W({"E", "au", "so"}, {})}}
Unwrap(s, u) == {A("unwrap", s, u, [alg |-> "ecb", k |-> k, t |-> "sym", n |-> 16, cv |-> "", v |-> 2, bad |-> "", off |-> 0, dg |-> "", r |-> r]) : k \in Ids(st.keys), r \in RightsSet}
Export(s, u) == {A("kexport", s, u, [k |-> k, q |-> q, cd |-> 0, ml |-> 0]) : k \in Ids(st.keys), q \in {TRUE, FALSE}}
ImportX(s, u) == {A("kimportx", s, u, [b |-> b, mut |-> m]) : b \in DOMAIN st.blob, m \in {"", "flip"}}
Cinit(s, u) == {A("cinit", s, u, [alg |-> alg, m |-> m, k |-> k, bad |-> ""]) : k \in Ids(st.keys), m \in {"enc", "dec"}, alg \in IF Scope = "stream" THEN SymAlgs ELSE {"ctr"}}
Cproc(s, u) == {A("cproc", s, u, [c |-> c, pv |-> p] @@ [Buf(n) EXCEPT !.ob = b, !.ib = b]) : c \in Ids(st.cip), n \in IF Scope = "stream" THEN {0, 15, 16} ELSE {16}, p \in IF Scope = "stream" THEN {"ok", "bad"} ELSE {"ok"}, b \in IF Scope = "perm" THEN {0, 1} ELSE {0}}
Clast(s, u) == {A("clast", s, u, [c |-> c, pv |-> p, tl |-> 16, tok |-> t, bad |-> ""] @@ Buf(n)) : c \in Ids(st.cip), n \in IF Scope = "stream" THEN {0, 5, 16, 17} ELSE {5}, p \in IF Scope = "stream" THEN {"ok", "bad"} ELSE {"ok"}, t \in IF Scope = "stream" THEN {TRUE, FALSE} ELSE {TRUE}}
Civ(s, u) == {A("civ", s, u, [c |-> c, il |-> n]) : c \in Ids(st.cip), n \in {15, 16}}
Minit(s, u) == {A("minit", s, u, [alg |-> g, dg |-> "sha256", k |-> k, bad |-> ""]) : k \in Ids(st.keys), g \in {"hmac", "cmac"}}
Mac(s, u) == {A("mproc", s, u, [c |-> c, n |-> 7]) : c \in Ids(st.mac)} \cup {A("mkey", s, u, [c |-> c, k |-> k]) : c \in Ids(st.mac), k \in Ids(st.keys)}
             \cup {A("mcomp", s, u, [c |-> c, q |-> q, cd |-> d]) : c \in Ids(st.mac), q \in {TRUE, FALSE}, d \in {0 - 1, 0}}
Rel(s, u) == {A("krel", s, u, [k |-> k]) : k \in Ids(st.keys)} \cup {A("crel", s, u, [c |-> c]) : c \in Ids(st.cip)} \cup {A("mrel", s, u, [c |-> c]) : c \in Ids(st.mac)} \cup {A("srel", s, u, [b |-> b]) : b \in Ids(st.svp)}
Create(s, u) == {A("screate", s, u, [n |-> n]) : n \in {0, 16}}
Ask(s, u) == {A("kdig", s, u, [k |-> k, q |-> FALSE, cd |-> 0]) : k \in Ids(st.keys)} \cup {A("khdr", s, u, [k |-> k]) : k \in Ids(st.keys)}
Calls(s, u) ==
  CASE Scope = "perm" -> Import(s, u) \cup Derive(s, u) \cup Cinit(s, u) \cup Cproc(s, u) \cup Clast(s, u) \cup Minit(s, u) \cup Create(s, u)
    [] Scope = "chain" -> Import(s, u) \cup Derive(s, u) \cup Unwrap(s, u) \cup Export(s, u) \cup ImportX(s, u)
    [] Scope = "iso" -> Import(s, u) \cup Cinit(s, u) \cup Cproc(s, u) \cup Clast(s, u) \cup Minit(s, u) \cup Mac(s, u) \cup Rel(s, u) \cup Ask(s, u) \cup {A("close", s, u, <<>>)}
    [] Scope = "handles" -> Import(s, u) \cup Unwrap(s, u) \cup Cinit(s, u) \cup Cproc(s, u) \cup Minit(s, u) \cup Create(s, u) \cup Rel(s, u) \cup {A("close", s, u, <<>>)}
    [] Scope = "stream" -> Import(s, u) \cup Cinit(s, u) \cup Cproc(s, u) \cup Clast(s, u) \cup Civ(s, u) \cup Minit(s, u) \cup Mac(s, u) \cup Rel(s, u)
    [] OTHER -> {}

---------------------------------------------------------------------------
(* the properties, in their own words *)
UsesKey(a) == CASE a.op = "derive" -> "D" [] a.op = "unwrap" -> "W" [] a.op = "cinit" -> (IF a.m = "enc" THEN "E" ELSE "C") [] a.op \in {"minit", "sign"} -> "S" [] a.op = "xchg" -> "X" [] OTHER -> ""
Unprotected(o, r) == {x \in {"au", "ac", "du", "d14", "d22"} : o[x] # 0} \subseteq r.f
On(list, u) == \/ list = "all" \/ (list = "u1" /\ u = 1) \/ (list = "u2" /\ u = 2)
Permits(s, r, u, flag) == flag \in r.f /\ ~(s.now < r.nb) /\ ~(s.now >= r.na) /\ On(r.ta, u) /\ s.outs.poll /\ Unprotected(s.outs, r) /\ (s.outs.svp \/ "so" \in r.f)

(* P01: success of a use means that the rights permit it; permission, an object of one's own and room mean success *)
P01(a, ok) ==
  /\ UsesKey(a) # "" /\ ok => Permits(st, st.keys[a.k].r, a.u, UsesKey(a))
  /\ a.op \in {"cinit", "minit", "derive"} /\ a.k \in DOMAIN st.keys /\ Here(st.keys, a.k, a) /\ CallerOk(st, a) /\ Permits(st, st.keys[a.k].r, a.u, UsesKey(a))
       /\ Cardinality(LiveIn(CASE a.op = "cinit" -> st.cip [] a.op = "minit" -> st.mac [] OTHER -> st.keys, a.s)) < Slots => ok
  /\ a.op \in {"cproc", "clast"} /\ ok =>
       LET r == st.cip[a.c].r IN (IF st.cip[a.c].m = "enc" THEN "E" ELSE "C") \in r.f /\ r.nb <= st.now /\ st.now < r.na /\ st.outs.poll /\ Unprotected(st.outs, r) /\ (a.ob = 0 => "so" \in r.f)
(* P02: what a key made from another key may do *)
UnwrapOnly(p) == p.f \cap {"X", "D", "E", "C", "S"} = {} /\ p.c # {}
P02key(k) == LET x == from[k] r == st.keys[k].r IN
  IF x.p = 0 THEN r = x.r ELSE
  LET p == st.keys[x.p].r IN
  /\ [r EXCEPT !.f = {}] = [x.r EXCEPT !.f = {}] /\ r.f \subseteq x.r.f
  /\ IF UnwrapOnly(p) THEN r.f \cap Ku = x.r.f \cap p.c \cap Ku /\ r.f \ Ku = x.r.f \ Ku
     ELSE r.f \cap OutF = x.r.f \cap p.f \cap OutF /\ r.f \ OutF = x.r.f \ OutF
RECURSIVE Line(_)
Line(k) == IF from[k].p = 0 THEN {k} ELSE {k} \cup Line(from[k].p)
(* along a line of keys none of which may only unwrap, permissions for outputs only shrink; below one that may only unwrap, usage stays within what it states *)
P02 == \A k \in DOMAIN st.keys : /\ P02key(k)
         /\ LET L == Line(k) \ {k} IN ((\A p \in L : ~UnwrapOnly(st.keys[p].r)) => \A p \in L : st.keys[k].r.f \cap OutF \subseteq st.keys[p].r.f)
         /\ from[k].p # 0 /\ UnwrapOnly(st.keys[from[k].p].r) => st.keys[k].r.f \cap Ku \subseteq st.keys[from[k].p].r.c
(* P06: what leaves and comes back *)
P06 == /\ \A b \in DOMAIN st.blob : "ca" \in st.blob[b].r.f /\ \E k \in DOMAIN st.keys : st.blob[b] = [t |-> st.keys[k].t, n |-> st.keys[k].n, cv |-> st.keys[k].cv, r |-> st.keys[k].r, val |-> st.keys[k].val]
       /\ \A k \in DOMAIN from : from[k].how = "import" /\ from[k].b # 0 => LET b == st.blob[from[k].b] x == st.keys[k] IN <<x.t, x.n, x.cv, x.r, x.val>> = <<b.t, b.n, b.cv, b.r, b.val>>
(* P03, P04, P05: who changes what *)
Tabs(x) == <<x.keys, x.cip, x.mac, x.svp>>
Frame(a, ok, n) ==
  /\ ~ok => n = st \/ (a.op = "clast" /\ n = [st EXCEPT !.cip[a.c].broken = TRUE])
  /\ \A t \in 1..4 : LET o == Tabs(st)[t] p == Tabs(n)[t] IN
       /\ DOMAIN o \subseteq DOMAIN p
       /\ \A i \in DOMAIN o : o[i] # p[i] => o[i].live /\ o[i].s = a.s /\ (a.op = "close" \/ o[i].u = a.u)      \* only one's own, living objects change
       /\ \A i \in DOMAIN p \ DOMAIN o : ok /\ p[i].live /\ p[i].s = a.s /\ p[i].u = a.u                         \* new objects are one's own
  /\ \A k \in DOMAIN st.keys : [n.keys[k] EXCEPT !.live = TRUE] = [st.keys[k] EXCEPT !.live = TRUE]               \* keys never change
  /\ \A s \in DOMAIN st.ses : st.ses[s] # n.ses[s] => s = a.s /\ a.op = "close"
  /\ ok => a.s \in DOMAIN st.ses /\ st.ses[a.s].live /\ st.ses[a.s].u = a.u
P04(a, ok) ==
  LET full(t) == Cardinality({i \in DOMAIN t : t[i].live /\ t[i].s = a.s}) >= Slots IN
  /\ a.op \in KeyOps /\ full(st.keys) => ~ok
  /\ a.op = "cinit" /\ full(st.cip) => ~ok
  /\ a.op = "minit" /\ full(st.mac) => ~ok
  /\ a.op = "screate" /\ full(st.svp) => ~ok
  /\ a.op = "kimport" /\ CallerOk(st, a) /\ ~full(st.keys) => ok
  /\ a.op = "screate" /\ CallerOk(st, a) /\ ~full(st.svp) /\ a.n > 0 => ok
  /\ a.op = "krel" /\ CallerOk(st, a) => (ok <=> (a.k \in DOMAIN st.keys /\ st.keys[a.k].live /\ st.keys[a.k].s = a.s /\ st.keys[a.k].u = a.u))
CapInv == \A s \in DOMAIN st.ses : \A t \in 1..4 : Cardinality({i \in DOMAIN Tabs(st)[t] : Tabs(st)[t][i].live /\ Tabs(st)[t][i].s = s}) <= Slots
ClosedInv == \A s \in DOMAIN st.ses : ~st.ses[s].live => \A t \in 1..4 : \A i \in DOMAIN Tabs(st)[t] : Tabs(st)[t][i].s = s => ~Tabs(st)[t][i].live
(* P07, P08: after the end there is nothing more; what has a value keeps to the order of its algorithm *)
Streams(a, ok) ==
  /\ a.op \in {"cproc", "clast"} /\ ok => ~st.cip[a.c].done
  /\ a.op = "clast" /\ ok => st.cip[a.c].alg \notin {"ecb", "cbc"} /\ (st.cip[a.c].alg \in AeadAlgs /\ st.cip[a.c].m = "dec" => a.tok)
  /\ a.op = "cproc" /\ ok /\ st.cip[a.c].alg \in BlockAlgs => a.n % 16 = 0
  /\ a.op \in {"mproc", "mkey"} /\ ok => ~st.mac[a.c].done
  /\ a.op = "mcomp" /\ ok /\ ~a.q => ~st.mac[a.c].done /\ a.cd >= 0
StreamInv == \A c \in DOMAIN st.cip : st.cip[c].alg \in BlockAlgs /\ ~st.cip[c].done => st.cip[c].fed % 16 = 0

---------------------------------------------------------------------------
Bound(n) == Len(n.keys) <= MaxK /\ Len(n.cip) + Len(n.mac) + Len(n.svp) <= MaxC /\ Len(n.blob) <= 1 /\ (\A c \in DOMAIN n.cip : n.cip[c].fed <= 40)
            /\ (\A c \in DOMAIN n.mac : n.mac[c].fed <= 40)
Origin(a) == CASE a.op \in {"derive", "unwrap"} -> [p |-> a.k, r |-> a.r, how |-> a.op, b |-> 0]
               [] a.op = "kimportx" -> [p |-> 0, r |-> st.blob[a.b].r, how |-> "import", b |-> a.b]
               [] OTHER -> [p |-> 0, r |-> a.r, how |-> "import", b |-> 0]
Do(a) ==
  LET ok == Fails(st, a) = {} n == Step(st, a) IN
  /\ Assert(P01(a, ok), <<"P01", a, st>>) /\ Assert(Frame(a, ok, n), <<"frame", a, st>>) /\ Assert(P04(a, ok), <<"P04", a, st>>) /\ Assert(Streams(a, ok), <<"streams", a, st>>)
  /\ n # st /\ Bound(n)
  /\ st' = n /\ from' = IF Len(n.keys) > Len(st.keys) THEN Append(from, Origin(a)) ELSE from
Init == st = InitSt /\ from = <<>>
Next ==
  \/ \E u \in Users : Len(st.ses) < MaxS /\ Fails(st, [op |-> "open", u |-> u]) = {} /\ st' = Eff(st, [op |-> "open", u |-> u]) /\ UNCHANGED from
  \/ \E s \in DOMAIN st.ses : \E u \in Users : \E a \in Calls(s, u) : Do(a)
  \/ Scope = "perm" /\ \E t \in {99, 100, 101, 102} \ {st.now} : st' = [st EXCEPT !.now = t] /\ UNCHANGED from
  \/ Scope = "perm" /\ \E o \in Outs \ {st.outs} : st' = [st EXCEPT !.outs = o] /\ UNCHANGED from
=============================================================================
