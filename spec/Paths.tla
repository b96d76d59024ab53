-------------------------------- MODULE Paths -------------------------------
(***************************************************************************)
(* File system paths: when a mapping is unsafe (source and destination     *)
(* equal or nested, however spelled), and where a synchronization may      *)
(* write (S07).  A path is [abs, segs] with segments such as "..", "." and *)
(* "" among the names.  The file system has directories "a", "a/x", "b"    *)
(* and symbolic links "l" -> "a", "b/m" -> "../a/x", "a/t" -> ".".         *)
(* All is below a top directory, the working directory is top/"w".         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Names, MaxLen, Kinds

Cwd == <<"w">>
\* target of a symbolic link at a real path, relative to its directory
LinkAt(p) == CASE p = <<"w", "l">> -> <<"a">>
               [] p = <<"w", "b", "m">> -> <<"..", "a", "x">>
               [] p = <<"w", "a", "t">> -> <<".">>
               [] OTHER -> <<>>
RECURSIVE Walk(_, _)
\* resolve the rest of the segments from the real path p
Walk(p, segs) ==
    IF segs = <<>> THEN p
    ELSE LET s == Head(segs)
             r == Tail(segs)
         IN CASE s \in {"", "."} -> Walk(p, r)
              [] s = ".." -> Walk(IF p = <<>> THEN <<>> ELSE Front(p), r)
              [] OTHER -> LET q == Append(p, s)
                          IN IF LinkAt(q) # <<>> THEN Walk(p, LinkAt(q) \o r) ELSE Walk(q, r)
Real(x) == Walk(IF x.abs THEN <<>> ELSE Cwd, x.segs)
Within(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q
Nested(p, q) == Within(p, q) \/ Within(q, p)
\* kind of source: "path", "file" (a file URI, absolute), "http"
Unsafe(m) == m.kind # "http" /\ Nested(Real(m.s), Real(m.d))

---------------------------------------------------------------------------
VARIABLES in, done
Segs == UNION {[1..k -> Names] : k \in 1..MaxLen}
\* (".." never climbs above the top)
Ok(x) == \A k \in 1..Len(x.segs) :
    Cardinality({i \in 1..k : x.segs[i] = ".."}) <= (IF x.abs THEN 0 ELSE 1) + Cardinality({i \in 1..k : x.segs[i] \notin {"", ".", ".."}})
\* an empty relative path is no path
Spelled(x) == /\ x.segs[1] # "" \/ x.abs
              /\ \E i \in DOMAIN x.segs : x.segs[i] # ""
PathSet == {x \in [abs : BOOLEAN, segs : Segs] : Ok(x) /\ Spelled(x)}
Init == /\ done = FALSE
        /\ in \in [kind : Kinds, s : PathSet, d : PathSet]
        /\ (in.kind = "file" => in.s.abs)
        /\ (in.kind = "http" => in.s.abs /\ Len(in.s.segs) = 1)
Next == ~done /\ done' = TRUE /\ UNCHANGED in /\ PrintT(ToJson([in |-> in, out |-> [unsafe |-> Unsafe(in)]]))
Spec == Init /\ [][Next]_<<in, done>>
Idempotent == Real([abs |-> TRUE, segs |-> Real(in.s)]) = Real(in.s)
=============================================================================
