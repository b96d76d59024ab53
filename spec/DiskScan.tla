------------------------------ MODULE DiskScan ------------------------------
(***************************************************************************)
(* Which files a disk scan lists (B01).  A tree is a set of nodes [p, k]:  *)
(* p a path (sequence of name numbers) below some top directory, k its     *)
(* kind: "file", "dir", "link" (symbolic link to a file), "dlink" (to a    *)
(* directory), "fifo".  excl: the names that match an exclude pattern.     *)
(* maps: the destination paths of the mappings in order.  starts: paths to *)
(* scan, or the mapped ones if none are given.                             *)
(* The scan is modelled step by step: a work list of directories, whose    *)
(* entries are visited in any order.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS Family
Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Last1(p) == p[Len(p)]

\* declarative answer
Starts(c) == IF c.starts = <<>> THEN c.maps ELSE c.starts
Kind(c, p) == IF p = <<>> THEN "dir"
              ELSE IF \E i \in DOMAIN c.tree : c.tree[i].p = p
              THEN c.tree[CHOOSE i \in DOMAIN c.tree : c.tree[i].p = p].k ELSE "none"
Excl(c, n) == \E i \in DOMAIN c.excl : c.excl[i] = n
Found(c) ==
    {p \in {c.tree[i].p : i \in DOMAIN c.tree} :
        /\ Kind(c, p) = "file"
        /\ \E s \in ToSet(Starts(c)) :
            /\ Prefix(s, p) /\ Kind(c, s) \in {"dir", "file"}
            /\ (s # p => \A k \in Len(s) + 1..Len(p) : ~Excl(c, p[k]))}
MapOf(c, p) == LET ok == {i \in DOMAIN c.maps : Prefix(c.maps[i], p)} IN IF ok = {} THEN 0 ELSE Min(ok)
Answer(c) == IF \E p \in Found(c) : MapOf(c, p) = 0 THEN [ok |-> FALSE, files |-> {}]
             ELSE [ok |-> TRUE, files |-> {[p |-> p, m |-> MapOf(c, p)] : p \in Found(c)}]

---------------------------------------------------------------------------
VARIABLES in, todo, seen, pc
vars == <<in, todo, seen, pc>>

Leaf == {"none", "file", "link", "fifo", "dlink"}
Nodes(p, k) == IF k = "none" THEN {} ELSE {[p |-> p, k |-> k]}
Sub == {<<a, b, d>> : a \in {"none", "file"}, b \in {"none", "file"}, d \in {"none", "file"}}
Entry(n) == {Nodes(<<n>>, k) : k \in Leaf}
            \cup {Nodes(<<n>>, "dir") \cup Nodes(<<n, 1>>, s[1]) \cup Nodes(<<n, 2>>, s[2])
                  \cup (IF s[3] = "none" THEN {} ELSE Nodes(<<n, 3>>, "dir") \cup Nodes(<<n, 3, 2>>, s[3])) : s \in Sub}
Trees == {a \cup b : a \in Entry(1), b \in Entry(2)}
MapSets == {<< <<>> >>, << <<1>> >>, << <<1>>, <<2>> >>, << <<1, 3>>, <<>> >>, << <<>>, <<1>> >>}
StartSets == {<<>>, << <<1>> >>, << <<2>>, <<1>> >>, << <<1>>, <<1, 3>> >>, << <<2>>, <<2>> >>}
Cases(z) == {[tree |-> SetToSeq(t), excl |-> SetToSeq(e), maps |-> m, starts |-> s] :
                t \in Trees, e \in SUBSET {2, 3}, m \in MapSets, s \in StartSets}
\* links to directories are not scanned from; a start that is a file is not excluded, one that is nothing is mapped
Fit(c) == \A s \in ToSet(Starts(c)) : /\ \A k \in 1..Len(s) - 1 : Kind(c, SubSeq(s, 1, k)) \in {"none", "dir"}
                                      /\ Kind(c, s) \in {"none", "dir", "file"} /\ (Kind(c, s) = "file" => ~Excl(c, Last1(s)))
                                 /\ (Kind(c, s) = "none" => MapOf(c, s) # 0)

Init == /\ IF Traced THEN \E i \in DOMAIN Log : Fit(Log[i]) /\ in = Log[i] ELSE in \in {c \in Cases(0) : Fit(c)}
        /\ todo = {s \in ToSet(Starts(in)) : Kind(in, s) # "none"} /\ seen = {} /\ pc = "scan"
Children(p) == {q \in {in.tree[i].p : i \in DOMAIN in.tree} : Len(q) = Len(p) + 1 /\ Prefix(p, q)}
Visit == /\ pc = "scan" /\ todo # {}
         /\ LET p == CHOOSE p \in todo : TRUE
                pick == {q \in Children(p) : ~Excl(in, Last1(q))}
            IN IF Kind(in, p) = "file" THEN todo' = todo \ {p} /\ seen' = seen \cup {p}
               ELSE /\ todo' = (todo \ {p}) \cup {q \in pick : Kind(in, q) = "dir"}
                    /\ seen' = seen \cup {q \in pick : Kind(in, q) = "file"}
         /\ UNCHANGED <<in, pc>>
Finish == /\ pc = "scan" /\ todo = {} /\ pc' = "done"
          /\ PrintT(ToJson([in |-> in, out |-> Answer(in)]))
          /\ UNCHANGED <<in, todo, seen>>
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars

\* the scan finds what the answer says
ScanRight == pc = "done" => seen = Found(in)
=============================================================================
