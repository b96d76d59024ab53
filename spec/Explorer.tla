------------------------------ MODULE Explorer ------------------------------
(***************************************************************************)
(* The interactive explorer (C04) as a state machine over a graph of       *)
(* documents and a sequence of user inputs.                                *)
(*                                                                         *)
(* A location is [host, path (non-empty sequence of segments)].            *)
(* A reference is [form, host, up, path]: "abs" (with host), "root" (from  *)
(* the root of the host), "rel" (from the directory of the document, up    *)
(* levels higher).                                                         *)
(* A document is [at, ok, cap ("" if none), index, entries, describedby,   *)
(* up, idx]; the three links are sequences of at most one reference.       *)
(* An entry is [ref, cap, len, mod, type]; the last three say what the     *)
(* entry tells of the resource: "none", "same" or "differs".               *)
(* A resource is [at, len, mod, type]: which headers the server sends.     *)
(* A visit target (xr) is [at, caps, checks]; caps is a sequence of names  *)
(* of document kinds, <<"*">> for any and <<"resource">> for a resource.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Depth
Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)

---------------------------------------------------------------------------
Dir(p) == SubSeq(p, 1, Len(p) - 1)
Up(p, n) == SubSeq(p, 1, IF n >= Len(p) THEN 0 ELSE Len(p) - n)
Resolve(base, r) ==
    CASE r.form = "abs" -> [host |-> r.host, path |-> r.path]
      [] r.form = "root" -> [host |-> base.host, path |-> r.path]
      [] OTHER -> [host |-> base.host, path |-> Up(Dir(base.path), r.up) \o r.path]

Archives == [x \in {"resourcelist-archive", "resourcedump-archive", "changelist-archive", "changedump-archive"} |->
                CASE x = "resourcelist-archive" -> "resourcelist" [] x = "resourcedump-archive" -> "resourcedump"
                  [] x = "changelist-archive" -> "changelist" [] OTHER -> "changedump"]
OfResources == {"resourcelist", "changelist", "resourcedump", "changedump"}
Listed == <<"resourcelist", "resourcedump", "changelist", "changedump", "resourcelist-archive", "resourcedump-archive",
            "changelist-archive", "changedump-archive">>
Cap(d) == IF d.cap = "" THEN "(unknown capability)" ELSE d.cap
Kind(d) == Cap(d) \o (IF d.index THEN "index" ELSE "")
\* kinds of entries that the document may have; <<>>: no documents
Allowed(d) ==
    IF d.index THEN (IF d.cap = "capabilitylist" THEN <<>> ELSE <<Cap(d)>>)
    ELSE IF d.cap \in DOMAIN Archives THEN <<Archives[d.cap]>>
    ELSE IF d.cap = "description" THEN <<"capabilitylist">>
    ELSE IF d.cap = "capabilitylist" THEN Listed
    ELSE <<>>
\* whether the document is of a kind the explorer knows; left open for kinds that only newer specifications name
Familiar(d) ==
    IF d.cap = "" THEN "no"
    ELSE IF d.cap \in OfResources \cup {"description"} THEN "yes"
    ELSE IF ~d.index /\ d.cap \in {"capabilitylist"} \cup DOMAIN Archives THEN "yes"
    ELSE "open"
Shown(d) == IF Len(d.entries) > 21 THEN 20 ELSE Len(d.entries)
In(x, s) == \E i \in DOMAIN s : s[i] = x
NoChecks == [len |-> "none", mod |-> "none", type |-> "none"]

\* the options of a document: pairs of key and target
EntryCaps(d, e) ==
    IF e.cap # "" THEN <<e.cap>>
    ELSE IF Len(Allowed(d)) = 1 THEN Allowed(d)
    ELSE IF ~d.index /\ d.cap \in OfResources THEN <<"resource">>
    ELSE Allowed(d)
Opt(k, a, c, ch) == [key |-> k, to |-> [at |-> a, caps |-> c, checks |-> ch]]
LinkOpt(k, d, ln, caps) == IF ln = <<>> THEN <<>> ELSE <<Opt(k, Resolve(d.at, ln[1]), caps, NoChecks)>>
Options(d) ==
    LinkOpt("d", d, d.describedby, <<"resource">>) \o LinkOpt("u", d, d.up, <<"*">>) \o LinkOpt("i", d, d.idx, <<"*">>)
    \o [i \in 1..Shown(d) |-> LET e == d.entries[i] IN
            Opt(ToString(i), Resolve(d.at, e.ref), EntryCaps(d, e), [len |-> e.len, mod |-> e.mod, type |-> e.type])]
WrongKind(d, i) == LET e == d.entries[i] IN e.cap # "" /\ ~In(e.cap, Allowed(d))

---------------------------------------------------------------------------
VARIABLES in,       \* [docs, res, starts, inputs]
          at,       \* sequence of at most one target: what is shown
          opts,     \* its options
          back,     \* previously visited targets
          left,     \* starting points not tried yet
          inp,      \* inputs used
          obs,      \* what the user saw, one record per prompt
          phase     \* "visit", "prompt", "end", "printed"
vars == <<in, at, opts, back, left, inp, obs, phase>>

DocAt(a) == LET s == {i \in DOMAIN in.docs : in.docs[i].at = a} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
ResAt(a) == LET s == {i \in DOMAIN in.res : in.res[i].at = a} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
\* what is said of a header: "-" not shown, "plain", "match", "expected"
Header(sent, said) == IF ~sent THEN "-" ELSE IF said = "none" THEN "plain" ELSE IF said = "same" THEN "match" ELSE "expected"

Seen(xr) ==
    LET r == ResAt(xr.at)  i == DocAt(xr.at)
        head == xr.caps = <<"resource">>
        base == [asked |-> FALSE, at |-> xr.at, head |-> head, keys |-> <<>>, links |-> <<>>, wrongdoc |-> FALSE, familiar |-> "none", wrong |-> <<>>, headers |-> <<>>]
    IN IF head THEN IF r = 0 THEN base
                    ELSE [base EXCEPT !.headers = <<Header(in.res[r].len, xr.checks.len), Header(in.res[r].mod, xr.checks.mod),
                                                    Header(in.res[r].type, xr.checks.type)>>]
       ELSE IF i = 0 \/ ~in.docs[i].ok THEN base
       ELSE LET d == in.docs[i]  o == Options(d) IN
            [base EXCEPT !.keys = [j \in DOMAIN o |-> o[j].key],
                         !.links = [j \in DOMAIN o |-> o[j].to.at],
                         !.wrongdoc = (xr.caps # <<"*">> /\ ~In(Kind(d), xr.caps)),
                         !.familiar = Familiar(d),
                         !.wrong = [j \in 1..Shown(d) |-> WrongKind(d, j)]]
OptionsOf(xr) == LET i == DocAt(xr.at) IN
    IF xr.caps = <<"resource">> \/ i = 0 THEN <<>> ELSE IF ~in.docs[i].ok THEN <<>> ELSE Options(in.docs[i])

Start == /\ phase = "visit" /\ at = <<>>
         /\ IF left = <<>> THEN phase' = "end" /\ UNCHANGED <<at, left>>
            ELSE at' = <<left[1]>> /\ left' = Tail(left) /\ UNCHANGED phase
         /\ UNCHANGED <<in, opts, back, inp, obs>>
Show == /\ phase = "visit" /\ at # <<>>
        /\ obs' = Append(obs, Seen(at[1]))
        /\ opts' = OptionsOf(at[1])
        /\ phase' = "prompt"
        /\ UNCHANGED <<in, at, back, left, inp>>
Input(k) ==
    /\ phase = "prompt"
    /\ inp' = Append(inp, k)
    /\ UNCHANGED in
    /\ LET hit == {j \in DOMAIN opts : opts[j].key = k} IN
       IF hit # {} THEN
           LET t == opts[CHOOSE j \in hit : TRUE].to IN
           /\ back' = Append(back, at[1]) /\ at' = <<t>> /\ phase' = "visit" /\ UNCHANGED <<opts, left, obs>>
       ELSE IF k = "q" THEN phase' = "end" /\ UNCHANGED <<at, opts, back, left, obs>>
       ELSE IF k = "b" THEN
           /\ IF back = <<>> THEN at' = <<>> /\ UNCHANGED back
              ELSE at' = <<back[Len(back)]>> /\ back' = SubSeq(back, 1, Len(back) - 1)
           /\ phase' = "visit" /\ UNCHANGED <<opts, left, obs>>
       ELSE /\ obs' = Append(obs, [obs[Len(obs)] EXCEPT !.asked = TRUE])
            /\ UNCHANGED <<at, opts, back, left, phase>>
Tokens == {"1", "2", "u", "b", "x", "q"}
Report == /\ phase = "end" /\ phase' = "printed"
         /\ PrintT(ToJson([in |-> in, inputs |-> inp, obs |-> obs]))
         /\ UNCHANGED <<in, at, opts, back, left, inp, obs>>
Next == \/ Start \/ Show \/ Report
        \/ IF Traced THEN Len(inp) < Len(in.inputs) /\ Input(in.inputs[Len(inp) + 1])
           ELSE \E k \in Tokens : (Len(inp) >= Depth => k = "q") /\ Input(k)

---------------------------------------------------------------------------
\* small graphs: every link structure of two documents and a resource
A(s) == [host |-> "h", path |-> <<s>>]
R(s) == [form |-> "rel", host |-> "h", up |-> 0, path |-> <<s>>]
Ent(s) == [ref |-> R(s), cap |-> "", len |-> "same", mod |-> "none", type |-> "none"]
Xr(s) == [at |-> A(s), caps |-> <<"*">>, checks |-> NoChecks]
Small == {[docs |-> <<[at |-> A("c"), ok |-> TRUE, cap |-> "capabilitylist", index |-> FALSE, entries |-> e1, describedby |-> <<>>, up |-> u1, idx |-> <<>>],
                      [at |-> A("l"), ok |-> k, cap |-> "resourcelist", index |-> x, entries |-> e2, describedby |-> <<>>, up |-> u2, idx |-> <<>>]>>,
           res |-> <<[at |-> A("r"), len |-> TRUE, mod |-> TRUE, type |-> FALSE]>>,
           starts |-> st, inputs |-> <<>>] :
            e1 \in {<<>>, <<Ent("l")>>, <<Ent("r"), Ent("c")>>}, u1 \in {<<>>, <<R("l")>>},
            e2 \in {<<>>, <<Ent("r")>>, <<Ent("l"), Ent("r")>>}, u2 \in {<<>>, <<R("c")>>},
            k \in BOOLEAN, x \in BOOLEAN, st \in {<<Xr("c")>>, <<Xr("l"), Xr("c")>>}}
Init == /\ IF Traced THEN \E i \in DOMAIN Log : in = Log[i] ELSE in \in Small
        /\ at = <<>> /\ opts = <<>> /\ back = <<>> /\ left = in.starts /\ inp = <<>> /\ obs = <<>> /\ phase = "visit"
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
\* every step from one visited target to the next is a link of a document
Trail == back \o at
Linked == \A i \in 1..(Len(Trail) - 1) : \E j \in DOMAIN OptionsOf(Trail[i]) : OptionsOf(Trail[i])[j].to = Trail[i + 1]
FromStart == Trail # <<>> => In(Trail[1], in.starts)
Unique == Cardinality({opts[j].key : j \in DOMAIN opts}) = Len(opts)
Count == \A i \in DOMAIN in.docs : LET d == in.docs[i] IN
    Len(Options(d)) = (IF Len(d.entries) > 21 THEN 20 ELSE Len(d.entries)) + Len(d.describedby) + Len(d.up) + Len(d.idx)
\* one prompt per input, and one more at most
Prompts == Len(obs) - Len(inp) \in {0, 1}
\* going back shows what was shown before
BackReturns == [][(inp' # inp /\ Last(inp') = "b" /\ back # <<>> /\ back' # back) => at' = <<Last(back)>>]_vars
Ends == <>(phase = "printed" \/ (Traced /\ Len(inp) = Len(in.inputs)))
=============================================================================
