------------------------------------------------------------ MODULE Boundary ------------------------------------------------------------
(***************************************************************************)
(* The boundary between the client library and the secure application: the *)
(* commands of sa_ta_types.h, as a client that need not be honest can send *)
(* them.  A command is a shape (its number together with the variant of    *)
(* its content that decides what its parameters must be) and four          *)
(* parameters, each with a kind, a reference and a size.  The secure       *)
(* application must refuse a command that deviates from its shape, as it   *)
(* refuses any command of a caller it cannot authenticate; refusing        *)
(* changes nothing, so that in every other module a refused command is a   *)
(* stutter step.                                                           *)
(*                                                                         *)
(* Well-formed commands are those made by the client library while other   *)
(* modules' behaviours are replayed through it (Gen, SvpGen, CencGen,      *)
(* ContGen).  Dev enumerates how one parameter or field of a well-formed   *)
(* command can deviate, Verdict says what must become of the result:       *)
(*   "no"   refused, and nothing else changes                              *)
(*   "same" it is the same command and does what it did                    *)
(*   "any"  another well-formed command: only memory safety is demanded    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Pairs        \* how many commands with two deviations are drawn per shape

Kinds == {"none", "vin", "vout", "vinout", "tin", "tout", "tinout", "whole", "pin", "pout", "pinout", "j4", "j256", "jmax"}
KindsOf(d) == CASE d = "in" -> {"tin", "pin"} [] d = "out" -> {"tout", "pout"} [] d = "io" -> {"tinout", "pinout"} [] OTHER -> {}

\* What a parameter must be: direction, may it be absent, how its size is fixed, is an empty one allowed.
P(d, opt, sz, empty) == [d |-> d, opt |-> opt, sz |-> sz, empty |-> empty]
No   == P("none", FALSE, "any", FALSE)
Skip == P("skip", TRUE, "any", TRUE)              \* ignored for this shape
IO0  == P("io", FALSE, "fix", FALSE)              \* the command structure
I0   == P("in", FALSE, "fix", FALSE)
In   == P("in", FALSE, "any", FALSE)
InO  == P("in", TRUE, "any", TRUE)
InF  == P("in", FALSE, "fix", FALSE)
InFO == P("in", TRUE, "fix", FALSE)
InM  == P("in", FALSE, "mult", FALSE)             \* a whole number of records
OutS == P("out", TRUE, "stated", TRUE)            \* its size is stated in the command structure
Out  == P("out", FALSE, "any", TRUE)
OutO == P("out", TRUE, "any", TRUE)
OutF == P("out", FALSE, "fix", FALSE)
IOF  == P("io", FALSE, "fix", FALSE)
IOO  == P("io", TRUE, "any", TRUE)
\* content in the clear (read or written in place), or the handle of a protected buffer
BufOut(t) == IF t = "svp" THEN InF ELSE Out
BufOutO(t) == IF t = "svp" THEN InFO ELSE OutO        \* without one, the size is asked for
BufIn(t, empty) == IF t = "svp" THEN InF ELSE P("in", FALSE, "any", empty)

Ver == <<"api_version", "ver">>
Sh(p, f) == [p |-> p, f |-> f]
H(n) == <<n, "handle">>
E(n) == <<n, "enum">>
L(n) == <<n, "len">>
C(n) == <<n, "count">>
R(n) == <<n, "range">>
S(n) == <<n, "stated">>
N(n) == <<n, "small">>

Shapes ==
   "version"          :> Sh(<<IO0, No, No, No>>, <<Ver>>)
@@ "name"             :> Sh(<<IO0, OutS, No, No>>, <<Ver, S("name_length")>>)
@@ "device"           :> Sh(<<IO0, No, No, No>>, <<Ver>>)
@@ "uuid"             :> Sh(<<IO0, No, No, No>>, <<Ver>>)
@@ "generate/sym"     :> Sh(<<IO0, InO, InO, No>>, <<Ver, E("key_type"), L("key_length")>>)
@@ "generate/rsa"     :> Sh(<<IO0, InO, InO, No>>, <<Ver, E("key_type"), L("key_length")>>)
@@ "generate/ec"      :> Sh(<<IO0, InO, InO, No>>, <<Ver, E("key_type"), L("key_length")>>)
@@ "generate/dh"      :> Sh(<<IO0, In, In, No>>, <<Ver, E("key_type")>>)
@@ "export"           :> Sh(<<IO0, OutS, InO, No>>, <<Ver, S("out_length"), H("key")>>)
@@ "import/sym"       :> Sh(<<IO0, In, InF, No>>, <<Ver, E("key_format")>>)
@@ "import/rsa"       :> Sh(<<IO0, In, InF, No>>, <<Ver, E("key_format")>>)
@@ "import/ec"        :> Sh(<<IO0, In, InF, No>>, <<Ver, E("key_format"), E("curve")>>)
@@ "import/exported"  :> Sh(<<IO0, In, No, No>>, <<Ver, E("key_format")>>)
@@ "import/typej"     :> Sh(<<IO0, In, InF, No>>, <<Ver, E("key_format")>>)
@@ "import/soc"       :> Sh(<<IO0, In, InFO, No>>, <<Ver, E("key_format")>>)
@@ "provision"        :> Sh(<<IO0, Skip, InFO, InF>>, <<Ver>>)
@@ "unwrap/plain"     :> Sh(<<IO0, In, InO, InO>>, <<Ver, E("key_type"), E("cipher_algorithm"), H("wrapping_key")>>)
@@ "unwrap/iv"        :> Sh(<<IO0, In, InF, InO>>, <<Ver, E("key_type"), E("cipher_algorithm"), H("wrapping_key")>>)
@@ "unwrap/gcm"       :> Sh(<<IO0, In, InF, InO>>, <<Ver, E("key_type"), E("cipher_algorithm"), H("wrapping_key"), L("iv_length"), L("tag_length")>>)
@@ "unwrap/chacha"    :> Sh(<<IO0, In, InF, InO>>, <<Ver, E("key_type"), E("cipher_algorithm"), H("wrapping_key"), L("counter_length"), L("nonce_length")>>)
@@ "unwrap/chapoly"   :> Sh(<<IO0, In, InF, InO>>, <<Ver, E("key_type"), E("cipher_algorithm"), H("wrapping_key"), L("nonce_length"), L("tag_length")>>)
@@ "unwrap/elgamal"   :> Sh(<<IO0, In, InF, InO>>, <<Ver, E("key_type"), E("cipher_algorithm"), H("wrapping_key"), R("offset"), R("key_length")>>)
@@ "unwrap/oaep"      :> Sh(<<IO0, In, InF, InO>>, <<Ver, E("key_type"), E("cipher_algorithm"), H("wrapping_key"), E("digest_algorithm"), E("mgf1_digest_algorithm")>>)
@@ "public"           :> Sh(<<IO0, OutS, No, No>>, <<Ver, S("out_length"), H("key")>>)
@@ "derive/ladder"    :> Sh(<<IO0, InF, InO, InO>>, <<Ver, E("kdf_algorithm")>>)
@@ "derive/hkdf"      :> Sh(<<IO0, InF, InO, InO>>, <<Ver, E("kdf_algorithm"), L("length"), E("digest_algorithm"), H("parent")>>)
@@ "derive/concat"    :> Sh(<<IO0, InF, InO, InO>>, <<Ver, E("kdf_algorithm"), L("length"), E("digest_algorithm"), H("parent")>>)
@@ "derive/x963"      :> Sh(<<IO0, InF, InO, InO>>, <<Ver, E("kdf_algorithm"), L("length"), E("digest_algorithm"), H("parent")>>)
@@ "derive/cmac"      :> Sh(<<IO0, InF, InO, InO>>, <<Ver, E("kdf_algorithm"), L("length"), H("parent"), N("counter")>>)
@@ "derive/netflix"   :> Sh(<<IO0, InF, InO, InO>>, <<Ver, E("kdf_algorithm"), H("kenc"), H("khmac")>>)
@@ "exchange"         :> Sh(<<IO0, In, Skip, No>>, <<Ver, E("key_exchange_algorithm"), H("private_key")>>)
@@ "exchange/netflix" :> Sh(<<IO0, In, IOF, No>>, <<Ver, E("key_exchange_algorithm"), H("private_key"), H("in_kw")>>)
@@ "krelease"         :> Sh(<<I0, No, No, No>>, <<Ver, H("key")>>)
@@ "header"           :> Sh(<<IO0, OutF, No, No>>, <<Ver, H("key")>>)
@@ "digest"           :> Sh(<<IO0, OutS, No, No>>, <<Ver, S("out_length"), H("key"), E("digest_algorithm")>>)
@@ "random"           :> Sh(<<I0, Out, No, No>>, <<Ver>>)
@@ "cinit/plain"      :> Sh(<<IO0, InO, InO, No>>, <<Ver, E("cipher_algorithm"), E("cipher_mode"), H("key")>>)
@@ "cinit/iv"         :> Sh(<<IO0, InF, InO, No>>, <<Ver, E("cipher_algorithm"), E("cipher_mode"), H("key")>>)
@@ "cinit/gcm"        :> Sh(<<IO0, InF, InO, No>>, <<Ver, E("cipher_algorithm"), E("cipher_mode"), H("key")>>)
@@ "cinit/chacha"     :> Sh(<<IO0, InF, InF, No>>, <<Ver, E("cipher_algorithm"), E("cipher_mode"), H("key")>>)
@@ "cinit/chapoly"    :> Sh(<<IO0, InF, InO, No>>, <<Ver, E("cipher_algorithm"), E("cipher_mode"), H("key")>>)
@@ "cinit/oaep"       :> Sh(<<IO0, InF, InO, No>>, <<Ver, E("cipher_algorithm"), E("cipher_mode"), H("key")>>)
@@ "updateiv"         :> Sh(<<I0, InF, No, No>>, <<Ver, H("context")>>)
@@ "crelease"         :> Sh(<<I0, No, No, No>>, <<Ver, H("cipher_context")>>)
@@ "minit/hmac"       :> Sh(<<IO0, No, No, No>>, <<Ver, E("mac_algorithm"), H("key"), E("digest_algorithm")>>)
@@ "minit/cmac"       :> Sh(<<IO0, No, No, No>>, <<Ver, E("mac_algorithm"), H("key")>>)
@@ "mprocess"         :> Sh(<<I0, InO, No, No>>, <<Ver, H("mac_context")>>)
@@ "mprocesskey"      :> Sh(<<I0, No, No, No>>, <<Ver, H("mac_context"), H("key")>>)
@@ "mcompute"         :> Sh(<<IO0, OutS, No, No>>, <<Ver, S("out_length"), H("context")>>)
@@ "mrelease"         :> Sh(<<I0, No, No, No>>, <<Ver, H("context")>>)
@@ "sign"             :> Sh(<<IO0, OutS, InO, No>>, <<Ver, S("out_length"), E("signature_algorithm"), H("key")>>)
@@ "supported"        :> Sh(<<I0, No, No, No>>, <<Ver>>)
@@ "bcreate"          :> Sh(<<IO0, No, No, No>>, <<Ver>>)
@@ "brelease"         :> Sh(<<IO0, No, No, No>>, <<Ver, H("svp_buffer")>>)
@@ "bwrite"           :> Sh(<<IO0, In, InM, No>>, <<Ver, H("out")>>)
@@ "bcopy"            :> Sh(<<IO0, InM, No, No>>, <<Ver, H("out"), H("in")>>)
@@ "keycheck/clear"   :> Sh(<<IO0, BufIn("clear", FALSE), In, No>>, <<Ver, H("key"), E("in_buffer_type"), R("in_offset"), R("bytes_to_process")>>)
@@ "keycheck/svp"     :> Sh(<<IO0, BufIn("svp", FALSE), In, No>>, <<Ver, H("key"), E("in_buffer_type"), R("in_offset"), R("bytes_to_process")>>)
@@ "bufcheck"         :> Sh(<<I0, InF, No, No>>, <<Ver, H("svp_buffer"), R("offset"), R("length"), E("digest_algorithm")>>)
@@ "query"            :> Sh(<<IO0, OutO, BufIn("clear", TRUE), IOO>>, <<Ver, H("context")>>)
@@ "process/cc"       :> Sh(<<IO0, BufOutO("clear"), BufIn("clear", TRUE), IOO>>, <<Ver, H("context"), E("out_buffer_type"), E("in_buffer_type"), R("bytes_to_process")>>)
@@ "process/cs"       :> Sh(<<IO0, BufOutO("clear"), BufIn("svp", TRUE), IOO>>, <<Ver, H("context"), E("out_buffer_type"), E("in_buffer_type"), R("bytes_to_process")>>)
@@ "process/sc"       :> Sh(<<IO0, BufOutO("svp"), BufIn("clear", TRUE), IOO>>, <<Ver, H("context"), E("out_buffer_type"), E("in_buffer_type"), R("bytes_to_process")>>)
@@ "process/ss"       :> Sh(<<IO0, BufOutO("svp"), BufIn("svp", TRUE), IOO>>, <<Ver, H("context"), E("out_buffer_type"), E("in_buffer_type"), R("bytes_to_process")>>)
@@ "cenc/cc"          :> Sh(<<IO0, InM, BufOut("clear"), BufIn("clear", FALSE)>>, <<Ver, H("context"), C("subsample_count"), E("out_buffer_type"), E("in_buffer_type"), R("out_offset"), R("in_offset")>>)
@@ "cenc/cs"          :> Sh(<<IO0, InM, BufOut("clear"), BufIn("svp", FALSE)>>, <<Ver, H("context"), C("subsample_count"), E("out_buffer_type"), E("in_buffer_type"), R("out_offset"), R("in_offset")>>)
@@ "cenc/sc"          :> Sh(<<IO0, InM, BufOut("svp"), BufIn("clear", FALSE)>>, <<Ver, H("context"), C("subsample_count"), E("out_buffer_type"), E("in_buffer_type"), R("out_offset"), R("in_offset")>>)
@@ "cenc/ss"          :> Sh(<<IO0, InM, BufOut("svp"), BufIn("svp", FALSE)>>, <<Ver, H("context"), C("subsample_count"), E("out_buffer_type"), E("in_buffer_type"), R("out_offset"), R("in_offset")>>)

-----------------------------------------------------------------------------------------------------------------------------------------
\* A command relative to the well-formed one it was made from: per parameter whether the well-formed one has it (b), its kind,
\* whether its reference is the original ("same"), NULL or not memory of the client ("null", "wild"), its size relative to the
\* original; per field what was done to its value.
Refs == {"same", "null", "wild"}
Sizes == {"same", "zero", "less", "more"}
FieldDevs(c) == CASE c = "ver" -> {"zero", "next", "max"} [] c = "handle" -> {"invalid", "far", "trunc"} [] c = "enum" -> {"beyond", "plus256", "plus64k", "max"}
                 [] c = "len" -> {"plus4g", "max", "big"} [] c = "count" -> {"less", "more", "wrap", "max"} [] c = "range" -> {"max", "half", "wrap"} [] c = "stated" -> {"less", "more"} [] c = "small" -> {"zero", "five", "max"}

\* The kind an honest parameter has stands for its whole class; reading or writing client memory through TEMP or PARTIAL is one thing.
Absent(q) == q.k = "none" /\ q.r = "null" /\ q.s = "zero"
ParamVerdict(e, q, stated) ==
    CASE e.d = "skip" -> "any"
      [] e.d = "none" -> IF Absent(q) THEN "same" ELSE "no"
      [] e.d # "none" /\ Absent(q) -> IF ~e.opt THEN "no" ELSE IF q.b = "absent" THEN "same" ELSE "any"
      [] q.k \notin KindsOf(e.d) -> "no"
      [] q.r = "null" -> IF e.opt THEN "any" ELSE "no"
      [] q.b = "absent" -> "any"
      [] e.sz = "fix" -> IF q.s = "same" THEN "same" ELSE "no"
      [] e.sz = "mult" -> IF q.s = "same" THEN "same" ELSE "no"       \* less and more are by one byte
      [] e.sz = "stated" -> IF q.s = stated THEN (IF q.s = "same" THEN "same" ELSE "any") ELSE "no"
      [] OTHER -> IF q.s = "zero" THEN (IF e.empty THEN "any" ELSE "no") ELSE IF q.s = "same" THEN "same" ELSE "any"

StatedDev(sh, f) == IF \E i \in 1..Len(sh.f) : sh.f[i][2] = "stated" THEN f[CHOOSE i \in 1..Len(sh.f) : sh.f[i][2] = "stated"] ELSE "same"
FieldVerdict(sh, cmd, i) ==
    CASE cmd.f[i] = "same" -> "same"
      [] sh.f[i][2] = "stated" -> "any"       \* judged with the parameter it states the size of
      [] sh.p[2].opt /\ sh.p[2].d # "none" /\ cmd.p[2].r = "null" /\ sh.f[i][1] \in {"out_buffer_type", "bytes_to_process"} -> "any"   \* only a question for the size: there is no output to describe
      [] OTHER -> "no"
Worst(vs) == IF "no" \in vs THEN "no" ELSE IF "any" \in vs THEN "any" ELSE "same"
Verdict(sh, cmd) == Worst({ParamVerdict(sh.p[i], cmd.p[i], StatedDev(sh, cmd.f)) : i \in 1..4} \cup {FieldVerdict(sh, cmd, i) : i \in 1..Len(sh.f)})

-----------------------------------------------------------------------------------------------------------------------------------------
\* The enumeration.  A deviation is a change at one place; the well-formed command has or has not each optional parameter.
BaseKind(e) == CASE e.d = "in" -> "tin" [] e.d = "out" -> "tout" [] e.d = "io" -> "tinout" [] OTHER -> "none"
HonestP(e, b) == IF b = "absent" THEN [b |-> b, k |-> "none", r |-> "null", s |-> "zero"] ELSE [b |-> b, k |-> BaseKind(e), r |-> "same", s |-> "same"]
Bases(e) == IF e.d = "none" THEN {"absent"} ELSE IF e.d = "skip" THEN {} ELSE IF e.opt THEN {"absent", "present"} ELSE {"present"}
\* parameters as a client can make them: memory that is not there is only claimed through kinds that are not memory
ParamDevs(e, b) ==
    LET h == HonestP(e, b)
        d == IF b = "present" THEN {[b |-> b, k |-> k, r |-> r, s |-> s] : k \in Kinds, r \in {"same", "null"}, s \in Sizes} ELSE {[b |-> b, k |-> k, r |-> r, s |-> s] : k \in Kinds, r \in {"same", "null"}, s \in {"zero", "more"}}
        wild == {[b |-> b, k |-> k, r |-> "wild", s |-> s] : k \in {"none", "vin", "vout", "vinout", "j4", "j256", "jmax"}, s \in {IF b = "present" THEN "same" ELSE "more", "zero"}}
    IN (d \cup wild) \ {h}
SameF(sh) == [i \in 1..Len(sh.f) |-> "same"]
\* the places of a shape and their deviations: <<place, deviation>> with place 1..4 a parameter, 4 + i field i
Places(sh) == 1..(4 + Len(sh.f))
Devs(sh, pl, bs) == IF pl <= 4 THEN (IF sh.p[pl].d = "skip" THEN {} ELSE ParamDevs(sh.p[pl], bs[pl])) ELSE FieldDevs(sh.f[pl - 4][2])
Honest(sh, bs) == [p |-> [i \in 1..4 |-> HonestP(sh.p[i], bs[i])], f |-> SameF(sh)]
\* the call itself: without a session, without parameters, an unknown number, or from a caller that cannot be authenticated
Calls == {"nosession", "noparams", "notypes", "caller", "unknown"}
Apply(cmd, pl, d) == IF pl <= 4 THEN [cmd EXCEPT !.p[pl] = d] ELSE [cmd EXCEPT !.f[pl - 4] = d]
\* the well-formed commands differ in which optional parameters they have; those not concerned are taken as present
BS(sh) == [1..4 -> {"absent", "present"}]
Default(sh) == [i \in 1..4 |-> IF sh.p[i].d = "none" THEN "absent" ELSE "present"]
Singles(sh) == UNION {UNION {{[at |-> <<pl>>, dev |-> <<d>>, v |-> Verdict(sh, Apply(Honest(sh, bs), pl, d))] : d \in Devs(sh, pl, bs)}
                             : bs \in {[Default(sh) EXCEPT ![IF pl <= 4 THEN pl ELSE 1] = b] : b \in (IF pl <= 4 THEN Bases(sh.p[pl]) ELSE {"present"})}} : pl \in Places(sh)}
    \cup {[at |-> <<0>>, dev |-> <<c>>, v |-> "no"] : c \in Calls}
PairsOf(sh) == LET bs == Default(sh) IN
    UNION {LET pq == RandomElement({x \in Places(sh) \X Places(sh) : x[1] < x[2] /\ Devs(sh, x[1], bs) # {} /\ Devs(sh, x[2], bs) # {}})
               d1 == RandomElement(Devs(sh, pq[1], bs)) d2 == RandomElement(Devs(sh, pq[2], bs)) IN
           {[at |-> <<pq[1], pq[2]>>, dev |-> <<d1, d2>>, v |-> Verdict(sh, Apply(Apply(Honest(sh, bs), pq[1], d1), pq[2], d2))]} : n \in 1..Pairs}

\* one state per shape; its line of the table is printed
VARIABLE todo, shape
Init == todo = DOMAIN Shapes /\ shape = ""
Next == \E n \in todo : todo' = todo \ {n} /\ shape' = n /\ n = (CHOOSE x \in todo : TRUE)
        /\ LET sh == Shapes[n] IN PrintT(<<"BEH", ToJson([shape |-> n, opt |-> [i \in 1..4 |-> sh.p[i].opt], f |-> [i \in 1..Len(sh.f) |-> sh.f[i][1]], cases |-> Singles(sh) \cup PairsOf(sh)])>>)

\* what must hold of the verdicts themselves
HonestAccepted == shape # "" => Verdict(Shapes[shape], Honest(Shapes[shape], Default(Shapes[shape]))) \in {"same", "any"}
\* nothing is ever read or written through a parameter that is not client memory of the right direction
OnlyMemory == shape # "" => LET sh == Shapes[shape] bs == Default(sh) IN
    \A pl \in 1..4 : \A d \in Devs(sh, pl, bs) : (d.k \notin KindsOf(sh.p[pl].d) /\ ~Absent(d)) => Verdict(sh, Apply(Honest(sh, bs), pl, d)) = "no"
\* a command without one of its required parameters is refused whatever else it has
Required == shape # "" => LET sh == Shapes[shape] bs == Default(sh) IN
    \A pl \in 1..4 : (sh.p[pl].d \notin {"none", "skip"} /\ ~sh.p[pl].opt) => Verdict(sh, Apply(Honest(sh, bs), pl, HonestP(sh.p[pl], "absent"))) = "no"
=========================================================================================================================================
