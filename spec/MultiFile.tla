----------------------------- MODULE MultiFile ------------------------------
(***************************************************************************)
(* Writing a list of n entries with at most max per document, and reading  *)
(* it back.  The writer takes one entry at a time from the list; a full    *)
(* document is closed only when it is known whether more follows.          *)
(* max = 0 stands for no limit.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS MaxN, MaxMax

VARIABLES n, max, multi,        \* the case
          pc, rest, open, parts, index, got, outcome
case == <<n, max, multi>>
vars == <<n, max, multi, pc, rest, open, parts, index, got, outcome>>

Entries(k) == [i \in 1..k |-> i]
Full(p) == max # 0 /\ Len(p) >= max

Init == /\ n \in 0..MaxN /\ max \in 0..MaxMax /\ multi \in BOOLEAN
        /\ pc = "fill" /\ rest = Entries(n) /\ open = <<>> /\ parts = <<>> /\ index = <<>> /\ got = <<>> /\ outcome = ""

\* move one entry into the open document
Fill == /\ pc = "fill" /\ rest # <<>> /\ ~Full(open)
        /\ open' = Append(open, Head(rest)) /\ rest' = Tail(rest)
        /\ UNCHANGED <<pc, parts, index, got, outcome>>
\* the first document takes everything: a single document is written
Single == /\ pc = "fill" /\ rest = <<>> /\ parts = <<>>
          /\ parts' = <<open>> /\ pc' = "read" /\ outcome' = "single"
          /\ UNCHANGED <<rest, open, index, got>>
Refuse == /\ pc = "fill" /\ rest # <<>> /\ Full(open) /\ ~multi
          /\ pc' = "done" /\ outcome' = "refused"
          /\ UNCHANGED <<rest, open, parts, index, got>>
\* a full document, or the last one of several, is written as component
Component == /\ pc = "fill" /\ multi
             /\ \/ rest # <<>> /\ Full(open)
                \/ rest = <<>> /\ parts # <<>> /\ open # <<>>
             /\ parts' = Append(parts, open) /\ index' = Append(index, Len(parts) + 1) /\ open' = <<>>
             /\ UNCHANGED <<pc, rest, got, outcome>>
Index == /\ pc = "fill" /\ parts # <<>> /\ open = <<>> /\ rest = <<>>
         /\ pc' = "read" /\ outcome' = "index"
         /\ UNCHANGED <<rest, open, parts, index, got>>
\* reading: the single document, or the components in the order of the index
Read == /\ pc = "read"
        /\ IF outcome = "single" THEN got' = parts[1] /\ pc' = "done" /\ UNCHANGED index
           ELSE IF index = <<>> THEN pc' = "done" /\ UNCHANGED <<got, index>>
           ELSE got' = got \o parts[Head(index)] /\ index' = Tail(index) /\ UNCHANGED pc
        /\ UNCHANGED <<rest, open, parts, outcome>>
Emit == /\ pc = "done" /\ pc' = "end"
        /\ PrintT(ToJson([in |-> [n |-> n, max |-> max, multi |-> multi],
                          out |-> [outcome |-> outcome, parts |-> parts]]))
        /\ UNCHANGED <<rest, open, parts, index, got, outcome>>
Next == (Fill \/ Single \/ Refuse \/ Component \/ Index \/ Read \/ Emit) /\ UNCHANGED case
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == pc \in {"done", "end"}
WithinLimit == \A i \in DOMAIN parts : max # 0 => Len(parts[i]) <= max
\* all components but the last are full, none is empty, there is no single component
Consecutive == (Ended /\ outcome = "index") =>
    /\ Len(parts) > 1 /\ \A i \in 1..Len(parts) - 1 : Len(parts[i]) = max
    /\ parts[Len(parts)] # <<>>
NothingLost == Ended => IF outcome = "refused" THEN parts = <<>> /\ got = <<>> ELSE got = Entries(n)
RightForm == Ended => outcome = (IF max = 0 \/ n <= max THEN "single" ELSE IF multi THEN "index" ELSE "refused")
Ends == <>(pc = "end")
=============================================================================
