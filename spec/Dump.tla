-------------------------------- MODULE Dump --------------------------------
(***************************************************************************)
(* Writing a dump (B02).  rs: the resources in the order of the list, each *)
(* [size, decl, file]: size of the file in units, decl what length the     *)
(* description declares ("none", "right", "wrong"), file whether there is  *)
(* one ("ok", "nopath", "missing").  max: [files, size] limits.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Functions

Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS N, Sizes, Odd

Good(c, r) == r.file = "ok" /\ r.decl # "wrong" /\ r.size <= c.size
\* the check alone, lengths declared being compared with the files or not
Loose(c) == \A i \in DOMAIN c.rs : c.rs[i].file = "ok" /\ c.rs[i].size <= c.size
Accept(c) == \A i \in DOMAIN c.rs : Good(c, c.rs[i])

VARIABLES in, pc, next, packs, cur, sum
vars == <<in, pc, next, packs, cur, sum>>

Plain(s) == [size |-> s, decl |-> "none", file |-> "ok"]
Strange == {[size |-> s, decl |-> d, file |-> f] : s \in Sizes, d \in {"none", "right", "wrong"}, f \in {"ok", "nopath", "missing"}}
Lists == UNION {[1..n -> {Plain(s) : s \in Sizes}] : n \in 0..N}
         \cup UNION {[1..n -> Strange] : n \in 0..Odd}
Cases(z) == {[rs |-> l, files |-> f, size |-> s] : l \in Lists, f \in 1..N + 1, s \in Sizes \cup {Max(Sizes) + 2, 3 * Max(Sizes)}}

Init == /\ IF Traced THEN \E i \in DOMAIN Log : in = Log[i] ELSE in \in Cases(0)
        /\ pc = "check" /\ next = 1 /\ packs = <<>> /\ cur = <<>> /\ sum = 0
\* everything is checked before anything is written
Check == /\ pc = "check"
         /\ IF Accept(in) THEN pc' = "add" /\ UNCHANGED <<in, next, packs, cur, sum>>
            ELSE pc' = "refused" /\ UNCHANGED <<in, next, packs, cur, sum>>
Add == /\ pc = "add" /\ next <= Len(in.rs)
       /\ LET more == Append(cur, next)
              s == sum + in.rs[next].size
          IN IF s >= in.size \/ Len(more) >= in.files
             THEN packs' = Append(packs, more) /\ cur' = <<>> /\ sum' = 0
             ELSE packs' = packs /\ cur' = more /\ sum' = s
       /\ next' = next + 1 /\ UNCHANGED <<in, pc>>
Last1 == /\ pc = "add" /\ next > Len(in.rs)
         /\ packs' = IF cur = <<>> THEN packs ELSE Append(packs, cur)
         /\ pc' = "done" /\ UNCHANGED <<in, next, cur, sum>>
Emit == /\ pc \in {"done", "refused"} /\ pc' = "end"
        /\ PrintT(ToJson([in |-> in, out |-> [ok |-> pc = "done", packs |-> packs, loose |-> Loose(in)]]))
        /\ UNCHANGED <<in, next, packs, cur, sum>>
Next == Check \/ Add \/ Last1 \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Total(p) == FoldSeq(LAMBDA i, a : a + in.rs[i].size, 0, p)
\* every resource in exactly one package, in order
Once == pc = "done" => FlattenSeq(packs) = [i \in DOMAIN in.rs |-> i]
\* closed as soon as a limit is reached and not before
Limits == pc = "done" => \A k \in DOMAIN packs :
            /\ packs[k] # <<>>
            /\ Len(packs[k]) <= in.files
            /\ k < Len(packs) => Len(packs[k]) = in.files \/ Total(packs[k]) >= in.size
            /\ Front(packs[k]) # <<>> => Len(Front(packs[k])) < in.files /\ Total(Front(packs[k])) < in.size
            \* so a package is never larger than the two limits together
            /\ Total(packs[k]) < 2 * in.size \/ in.size = 0
Refused == pc = "refused" => packs = <<>>
Ends == <>(pc = "end")
=============================================================================
