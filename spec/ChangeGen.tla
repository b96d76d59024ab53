----------------------------- MODULE ChangeGen -----------------------------
(* A change list generated from an old and a new list.  Entries: per URI   *)
(* the change and the description (of the new list, for deletions the      *)
(* old); time in whole seconds.                                            *)
EXTENDS Compare

GenCases(z) ==
    LET S(u) == {Absent, Desc(u, 4, None, None, None, 1), Desc(u, 4, 1, None, None, 2), Desc(u, 12, 1, None, None, 2),
                 Desc(u, None, None, None, None, None)}
    IN {[dst |-> <<a, b, c>>, src |-> <<d, e, f>>] : a \in S(1), b \in S(2), c \in {Absent, Desc(3, 4, None, None, None, 1)},
            d \in S(1), e \in S(2), f \in {Absent, Desc(3, 4, None, None, None, 1)}}
Generated(old, new) ==
    {[u |-> u, ch |-> ClassOf(old[u], new[u]), d |-> IF new[u] = Absent THEN old[u] ELSE new[u]] :
        u \in {x \in DOMAIN old : ClassOf(old[x], new[x]) \notin {"none", "same"}}}
Applied(old, changes) ==
    [u \in DOMAIN old |-> LET k == {e \in changes : e.u = u} IN
        IF k = {} THEN old[u] ELSE LET e == CHOOSE e \in k : TRUE IN IF e.ch = "deleted" THEN Absent ELSE e.d]
GInit == /\ done = FALSE
         /\ IF Traced THEN \E i \in DOMAIN Log : in = Log[i] ELSE in \in GenCases(0)
GNext == ~done /\ done' = TRUE /\ UNCHANGED in /\ PrintT(ToJson([in |-> in, out |-> Generated(in.dst, in.src)]))
GSpec == GInit /\ [][GNext]_<<in, done>>
\* the change list turns the old list into the new one (up to the equality of descriptions)
Turns == \A u \in DOMAIN in.dst :
            LET r == Applied(in.dst, Generated(in.dst, in.src))[u]
            IN IF in.src[u] = Absent THEN r = Absent ELSE r # Absent /\ Same(r, in.src[u])
OnePerResource == \A e, f \in Generated(in.dst, in.src) : e.u = f.u => e = f
NothingForEqual == Generated(in.dst, in.dst) = {}
=============================================================================
