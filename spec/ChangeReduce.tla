---------------------------- MODULE ChangeReduce ----------------------------
(* Reducing and filtering lists of changes (prune_dupes,                   *)
(* prune_updates_before).  A list is a sequence of [u, ch, t].             *)
EXTENDS Sync, TLC, Json, IOUtils

CONSTANTS N, MaxLen, Sample   \* Sample: of the lists of MaxLen keep those whose code mod Sample = 0
Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES in, done

Chs == <<"created", "updated", "deleted">>
Entry(k) == [u |-> (k \div 3) + 1, ch |-> Chs[(k % 3) + 1]]
RECURSIVE Codes(_)
Codes(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, k) : s \in Codes(n - 1), k \in 0..3 * N - 1}
Keep(s) == FoldLeft(LAMBDA a, k : a * 5 + k, 0, s) % Sample = 0
Enumerated(z) ==
    {[cl |-> [i \in DOMAIN s |-> Entry(s[i]) @@ [t |-> i]], keep |-> {}, from |-> 0] :
        s \in UNION {IF n = MaxLen THEN {q \in Codes(n) : Keep(q)} ELSE Codes(n) : n \in 0..MaxLen}}
\* times in any order, filtered
Times(z) == {[cl |-> [i \in DOMAIN s |-> [u |-> 1 + (i % 2), ch |-> "updated", t |-> s[i]]], keep |-> {}, from |-> f] :
                s \in UNION {[1..n -> 1..4] : n \in 0..4}, f \in 1..5}
\* local copies kept
Kept(z) == {[cl |-> [i \in DOMAIN s |-> Entry(s[i]) @@ [t |-> i]], keep |-> k, from |-> 0] :
                s \in UNION {Codes(n) : n \in 0..3}, k \in SUBSET (1..N)}
CaseOf(r) == [cl |-> r.cl, keep |-> ToSet(r.keep), from |-> r.from]

\* result: the indices kept, in order
Out(c) == LET f == Since(c.cl, c.from)
              fidx == SelectSeq([i \in DOMAIN c.cl |-> i], LAMBDA i : c.cl[i].t >= c.from)
              red == InOrder(KeptIdx(f, c.keep))
          IN [since |-> fidx, reduced |-> [k \in DOMAIN red |-> fidx[red[k]]],
              removed |-> Len(f) - Len(red)]

Init == /\ done = FALSE
        /\ IF Traced THEN \E i \in DOMAIN Log : in = CaseOf(Log[i]) ELSE in \in Enumerated(0) \cup Times(0) \cup Kept(0)
Next == ~done /\ done' = TRUE /\ UNCHANGED in /\ PrintT(ToJson([in |-> in, out |-> Out(in)]))
Spec == Init /\ [][Next]_<<in, done>>

---------------------------------------------------------------------------
(* Applying a list: the set of resources present, each with the index of   *)
(* the change that set it (0: as before)                                   *)
Apply(cl, have) ==
    FoldLeft(LAMBDA d, i : [d EXCEPT ![cl[i].u] = IF cl[i].ch = "deleted" THEN -1 ELSE i], have,
             [i \in DOMAIN cl |-> i])
ApplyIdx(cl, idx, have) ==
    FoldLeft(LAMBDA d, i : [d EXCEPT ![cl[i].u] = IF cl[i].ch = "deleted" THEN -1 ELSE i], have, idx)
Us == {in.cl[i].u : i \in DOMAIN in.cl}
Haves == [Us -> {-1, 0}]
CreatedFirst(u) == in.cl[FirstFor(in.cl, u)].ch = "created"
NetEffect ==
    in.from = 0 => \A have \in Haves :
        (\A u \in Us : CreatedFirst(u) /\ u \notin in.keep => have[u] = -1)
            => ApplyIdx(in.cl, Out(in).reduced, have) = Apply(in.cl, have)
=============================================================================
