------------------------------- MODULE Hasher -------------------------------
(***************************************************************************)
(* The calculation of digests as a state machine: an object for some of    *)
(* the kinds of digest is used for one file after another, its values are  *)
(* those of the file computed last, and setting a description replaces     *)
(* exactly the digests of those kinds.  (kind, file) = 0: no value.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Files, Depth

Kinds == 1..3
VARIABLES want, last, desc, hist
vars == <<want, last, desc, hist>>

\* at the start a file may be given; descriptions have digests of some other content (-1) or none
Init == /\ want \in SUBSET Kinds /\ last \in 0..Files
        /\ desc \in [1..2 -> {[k \in Kinds |-> 0], [k \in Kinds |-> -1], <<0, -1, 0>>}]
        /\ hist = <<[op |-> "new", x |-> last, want |-> SetToSortSeq(want, <), vals |-> [k \in Kinds |-> IF k \in want THEN last ELSE 0], desc |-> desc]>>
Vals == [k \in Kinds |-> IF k \in want THEN last ELSE 0]
Log(op, x) == hist' = Append(hist, [op |-> op, x |-> x, want |-> <<>>, vals |-> Vals', desc |-> desc'])
Compute(f) == last' = f /\ UNCHANGED <<want, desc>> /\ Log("compute", f)
Set(r) == /\ last # 0
          /\ desc' = [desc EXCEPT ![r] = [k \in Kinds |-> IF k \in want THEN last ELSE @[k]]]
          /\ UNCHANGED <<want, last>> /\ Log("set", r)
Next == /\ Len(hist) < Depth
        /\ (\E f \in 1..Files : Compute(f)) \/ (\E r \in 1..2 : Set(r))
Spec == Init /\ [][Next]_vars

Emit == Len(hist') = Depth => PrintT(ToJson(hist'))
\* a description never gets the digest of anything but the last file, and other kinds stay
OnlyLast == [][\A r \in 1..2, k \in Kinds : desc'[r][k] # desc[r][k] => k \in want /\ desc'[r][k] = last]_vars
=============================================================================
