------------------------------- MODULE Digest -------------------------------
(***************************************************************************)
(* Comparison by digests (S10).  Contents are numbers, 1 the one that the  *)
(* source serves, all of one size; 0: no local copy.  For each resource    *)
(* dig[k] is the content whose digest of type k the source lists (0: no    *)
(* digest of that type), loc the local content, off whether the local time *)
(* differs from the listed one, wl whether the listed length is wrong.     *)
(* want: the digest types asked for.  What is received is checked against  *)
(* the listing: flags are the digests, and 4 for the length, that differ.  *)
(* A run of the client: audit, baseline, audit, baseline; or incremental   *)
(* followed by an audit.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS Full
Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)
Types == {1, 2, 3}
Served == 1

VARIABLES in, loc, off, plan, out
vars == <<in, loc, off, plan, out>>

Digs == [Types -> 0..2]
Copies == {<<0, FALSE>>} \cup {<<l, o>> : l \in 1..2, o \in BOOLEAN}
Res == {[dig |-> d, loc |-> c[1], off |-> c[2], wl |-> FALSE] : d \in Digs, c \in Copies}
Long == {[dig |-> d, loc |-> c[1], off |-> c[2], wl |-> TRUE] : d \in Digs, c \in Copies}
Mates == {r \in Res : ~r.off /\ (Full \/ (r.loc = 1 /\ r.dig[3] = 0 /\ r.dig[2] # 2))}
Cases(z) == {[rs |-> <<r>>, want |-> SetToSeq(w), op |-> p] : r \in Res \cup Long, w \in SUBSET Types, p \in {"base", "inc"}}
            \cup {[rs |-> <<r, m>>, want |-> SetToSeq(w), op |-> "base"] : r \in Res, m \in Mates, w \in SUBSET Types}

Want == ToSet(in.want)
\* differs by a digest that was asked for and is listed
ByDigest(i) == \E k \in Want : in.rs[i].dig[k] # 0 /\ in.rs[i].dig[k] # loc[i]
Class(i) == IF loc[i] = 0 THEN "created" ELSE IF off[i] \/ in.rs[i].wl \/ ByDigest(i) THEN "updated" ELSE "same"
Flags(i) == {k \in Want : in.rs[i].dig[k] \notin {0, Served}} \cup (IF in.rs[i].wl THEN {4} ELSE {})
Classes == [i \in DOMAIN in.rs |-> Class(i)]

Init == /\ IF Traced THEN \E i \in DOMAIN Log : in = Log[i] ELSE in \in Cases(0)
        /\ loc = [i \in DOMAIN in.rs |-> in.rs[i].loc] /\ off = [i \in DOMAIN in.rs |-> in.rs[i].off]
        /\ plan = IF in.op = "base" THEN <<"audit", "base", "audit", "base">> ELSE <<"inc", "audit">>
        /\ out = <<>>
Audit == /\ plan # <<>> /\ Head(plan) = "audit"
         /\ out' = Append(out, Classes) /\ UNCHANGED <<loc, off>>
Base == /\ plan # <<>> /\ Head(plan) = "base"
        /\ out' = Append(out, Classes)
        /\ loc' = [i \in DOMAIN loc |-> IF Class(i) = "same" THEN loc[i] ELSE Served]
        /\ off' = [i \in DOMAIN off |-> IF Class(i) = "same" THEN off[i] ELSE FALSE]
\* every resource is listed as updated
Inc == /\ plan # <<>> /\ Head(plan) = "inc"
       /\ out' = Append(out, [i \in DOMAIN in.rs |-> "updated"])
       /\ loc' = [i \in DOMAIN loc |-> Served] /\ off' = [i \in DOMAIN off |-> FALSE]
Step == (Audit \/ Base \/ Inc) /\ plan' = Tail(plan) /\ UNCHANGED in
Done == /\ plan = <<>> /\ plan' = <<"end">>
        /\ PrintT(ToJson([in |-> in, out |-> out, loc |-> loc, flags |-> [i \in DOMAIN in.rs |-> Flags(i)]]))
        /\ UNCHANGED <<in, loc, off, out>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* a changed content is noticed whenever a digest asked for tells
Noticed == \A i \in DOMAIN in.rs : Class(i) = "same" =>
              /\ ~off[i] /\ \A k \in Want : in.rs[i].dig[k] \in {0, loc[i]}
\* digests that were not asked for, or that are not listed, have no influence
Neutral == \A i \in DOMAIN in.rs : (\A k \in Want : in.rs[i].dig[k] = 0) => (Class(i) = "updated" <=> loc[i] # 0 /\ (off[i] \/ in.rs[i].wl))
\* with a truthful source the second baseline has nothing to do, and what was compared is right
Settled == in.op = "base" /\ plan = <<>> /\ (\A i \in DOMAIN in.rs : ~in.rs[i].wl /\ \A k \in Types : in.rs[i].dig[k] \in {0, Served}) =>
              /\ \A i \in DOMAIN in.rs : out[4][i] = "same"
              /\ \A i \in DOMAIN in.rs : (\E k \in Want : in.rs[i].dig[k] # 0) => loc[i] = Served
\* whatever a second baseline still finds to do was reported when it was transferred
Reported == in.op = "base" /\ plan = <<>> => \A i \in DOMAIN in.rs : out[4][i] # "same" => Flags(i) # {}
=============================================================================
