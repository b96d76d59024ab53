------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* Resource descriptions: equality ("no proof of difference"), copying,    *)
(* and the comparison of two lists.                                        *)
(* A description is [u, t, md5, sha1, sha256, len]; t in quarter seconds,  *)
(* None = -1 for anything not given.  Copying is over all attributes.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT Family
Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)

None == -1
Abs(x) == IF x < 0 THEN -x ELSE x
BothDiffer(x, y) == x # None /\ y # None /\ x # y

\* delta in quarter seconds
Equal(a, b, delta) ==
    /\ a.u = b.u
    /\ (a.t = None) = (b.t = None)
    /\ a.t # None => (a.t = b.t \/ Abs(a.t - b.t) < delta)
    /\ ~BothDiffer(a.md5, b.md5) /\ ~BothDiffer(a.sha1, b.sha1) /\ ~BothDiffer(a.sha256, b.sha256)
    /\ ~BothDiffer(a.len, b.len)
Same(a, b) == Equal(a, b, 4)

(* Comparing lists: functions from URIs to descriptions, Absent if not     *)
(* listed.  The answer: per URI the class it falls into, and which list's  *)
(* description represents it.                                              *)
Absent == [u |-> 0]
ClassOf(d, s) == CASE d = Absent /\ s = Absent -> "none"
                   [] d = Absent /\ s # Absent -> "created"
                   [] d # Absent /\ s = Absent -> "deleted"
                   [] OTHER -> IF Same(d, s) THEN "same" ELSE "updated"
Compared(dst, src) == [u \in DOMAIN dst |-> ClassOf(dst[u], src[u])]

---------------------------------------------------------------------------
VARIABLES in, done

Desc(u, t, m, s1, s2, l) == [u |-> u, t |-> t, md5 |-> m, sha1 |-> s1, sha256 |-> s2, len |-> l]
EqualCases(z) ==
    {[a |-> Desc(1, ta, ma, xa, ya, la), b |-> Desc(ub, tb, mb, xb, yb, lb), delta |-> 4] :
        ub \in {1, 2}, ta \in {None, 0, 4}, tb \in {None, 0, 3, 4, 5}, ma \in {None, 1}, mb \in {None, 1, 2},
        xa \in {None, 1}, xb \in {None, 1, 2}, ya \in {None, 1}, yb \in {None, 1, 2}, la \in {None, 0, 5}, lb \in {None, 0, 5}}
DeltaCases(z) ==
    {[a |-> Desc(1, ta, None, None, None, 3), b |-> Desc(1, tb, None, None, None, None), delta |-> d] :
        ta \in {None, 0, 1, 2, 3, 4, 7, 8}, tb \in {None, 0, 1, 2, 3, 4, 7, 8}, d \in {0, 1, 2, 4, 8}}
Some(u) == {Absent, Desc(u, 4, None, None, None, 1), Desc(u, 4, 1, None, None, 2), Desc(u, 7, None, None, None, 1),
            Desc(u, None, 2, None, None, 1), Desc(u, 8, 1, None, None, 2)}
Fun3(a, b, c) == <<a, b, c>>
CompareCases(z) ==
    {[dst |-> <<a, b, c>>, src |-> <<d, e, f>>] : a \in Some(1), b \in Some(2) \ {Desc(2, None, 2, None, None, 1)},
        c \in {Absent, Desc(3, 4, None, None, None, 1)}, d \in Some(1), e \in Some(2) \ {Desc(2, None, 2, None, None, 1)},
        f \in {Absent, Desc(3, 4, None, None, None, 1), Desc(3, 9, None, None, None, 1)}}

(* copying: at[k] the attributes of the original, ov[k] the overrides      *)
Copied(at, ov) == [k \in DOMAIN at |-> IF ov[k] # None THEN ov[k] ELSE at[k]]
Norm(r) == r

Cases(z) == CASE Family = "equal" -> EqualCases(0)
              [] Family = "delta" -> DeltaCases(0)
              [] Family = "compare" -> CompareCases(0)
Out(c) == IF "delta" \in DOMAIN c THEN [eq |-> Equal(c.a, c.b, c.delta), same |-> Same(c.a, c.b)]
          ELSE IF "ov" \in DOMAIN c THEN [copy |-> Copied(c.at, c.ov)]
          ELSE [class |-> Compared(c.dst, c.src)]
Init == /\ done = FALSE
        /\ IF Traced THEN \E i \in DOMAIN Log : in = Log[i] ELSE in \in Cases(0)
Next == ~done /\ done' = TRUE /\ UNCHANGED in /\ PrintT(ToJson([in |-> in, out |-> Out(in)]))
Spec == Init /\ [][Next]_<<in, done>>

Symmetric == "delta" \in DOMAIN in => Equal(in.a, in.b, in.delta) = Equal(in.b, in.a, in.delta)
Reflexive == "delta" \in DOMAIN in => Equal(in.a, in.a, in.delta)
Partition == "src" \in DOMAIN in =>
    \A u \in DOMAIN in.dst :
        LET k == Compared(in.dst, in.src)[u]
        IN (k = "none") = (in.dst[u] = Absent /\ in.src[u] = Absent)
SelfSame == "src" \in DOMAIN in => \A u \in DOMAIN in.dst : Compared(in.dst, in.dst)[u] \in {"none", "same"}
=============================================================================
