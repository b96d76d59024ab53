----------------------------- MODULE Discovery -----------------------------
(***************************************************************************)
(* Where a client finds the Resource List (C01).                           *)
(* in.rl, in.cap: what is at the explicitly configured Resource List and   *)
(* Capability List ("unset": not configured); in.sd[1..2]: at the source   *)
(* description locations below the base and at the host; in.at[1..3]: at   *)
(* base/resourcelist.xml, base/sitemap.xml and host/sitemap.xml.           *)
(* What is at a list location: "ok", or it cannot be read: "404", "bad"    *)
(* (not well-formed), "wrong" (another kind of document), "down".          *)
(* At a Capability List location also "norl": one without Resource List,   *)
(* and "lost": the Resource List it names cannot be read.                  *)
(* At a source description location also "none", "many" (no or several     *)
(* sources) and "dead": the Capability List it names cannot be read.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANT Full
Lost == {"404", "bad", "wrong", "down"}
Some == IF Full THEN Lost ELSE {"404", "wrong"}
VARIABLES in, todo, reqs, end
vars == <<in, todo, reqs, end>>

Base == [rl |-> "unset", cap |-> "unset", sd |-> <<"404", "404">>, at |-> <<"404", "404", "404">>]
CapKinds == {"norl", "lost", "ok"}
SdKinds == {"none", "many", "dead"} \cup CapKinds
Cases(z) ==
    {[Base EXCEPT !.rl = k, !.cap = c, !.at = <<x, "404", "404">>, !.sd[1] = x] : k \in Lost \cup {"ok"}, c \in {"unset", "ok", "404"}, x \in {"ok", "404"}}
    \cup {[Base EXCEPT !.cap = k, !.at = <<x, "404", "404">>, !.sd[1] = x] : k \in Lost \cup CapKinds, x \in {"ok", "404"}}
    \cup {[Base EXCEPT !.sd = <<a, b>>, !.at = <<x, y, z2>>] :
            a \in Lost \cup SdKinds, b \in Some \cup SdKinds, x \in Some \cup {"ok"}, y \in Some \cup {"ok"}, z2 \in Lost \cup {"ok"}}

\* a location is [k: "rl" | "cap" | "sd", n: which, w: what is there]
L(k, n, w) == [k |-> k, n |-> n, w |-> w]
Start(c) == IF c.rl # "unset" THEN <<L("rl", 10, c.rl)>>
            ELSE IF c.cap # "unset" THEN <<L("cap", 20, c.cap)>>
            ELSE <<L("sd", 1, c.sd[1]), L("sd", 2, c.sd[2]), L("rl", 3, c.at[1]), L("rl", 4, c.at[2]), L("rl", 5, c.at[3])>>
Explicit == in.rl # "unset" \/ in.cap # "unset"

Init == in \in Cases(0) /\ todo = Start(in) /\ reqs = <<>> /\ end = ""
\* the location cannot be used
Give == IF Explicit THEN end' = "error" /\ todo' = <<>> ELSE todo' = Tail(todo) /\ end' = (IF Tail(todo) = <<>> THEN "error" ELSE "")
Request ==
    /\ end = "" /\ todo # <<>>
    /\ LET x == Head(todo) IN
       /\ reqs' = Append(reqs, <<x.k, x.n>>)
       /\ CASE x.w \in Lost -> Give
            [] x.k = "rl" -> end' = "found" /\ todo' = <<>>
            [] x.k = "cap" /\ x.w = "norl" -> end' = "error" /\ todo' = <<>>
            [] x.k = "cap" -> todo' = <<L("rl", x.n + 200, IF x.w = "lost" THEN "404" ELSE "ok")>> \o Tail(todo) /\ end' = end
            [] x.k = "sd" /\ x.w \in {"none", "many"} -> end' = "error" /\ todo' = <<>>
            [] OTHER -> todo' = <<L("cap", x.n + 100, IF x.w = "dead" THEN "404" ELSE x.w)>> \o Tail(todo) /\ end' = end
    /\ UNCHANGED in
Emit == /\ end \in {"found", "error"} /\ end' = end \o "."
        /\ PrintT(ToJson([in |-> in, out |-> [end |-> end, reqs |-> reqs]]))
        /\ UNCHANGED <<in, todo, reqs>>
Next == Request \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Last1 == reqs[Len(reqs)]
\* what is used was read, and everything before it could not be used
UsedIsReadable == end = "found" => Last1[1] = "rl"
ExplicitOnly == Explicit => \A i \in DOMAIN reqs : reqs[i][2] >= 10
Ordered == \A i, j \in DOMAIN reqs : i < j /\ reqs[i][2] <= 5 /\ reqs[j][2] <= 5 => reqs[i][2] < reqs[j][2]
Once == \A i, j \in DOMAIN reqs : i # j => reqs[i] # reqs[j]
Ends == <>(end # "")
=============================================================================
