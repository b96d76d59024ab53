------------------------------- MODULE Publish -------------------------------
(***************************************************************************)
(* A source that publishes its files with this tool, and clients that      *)
(* follow it (E01): the composition of disk scans, lists written and read, *)
(* generated change lists, baseline and incremental synchronization.       *)
(*   src   files of the source: [v (content, 0: no such file), t (time)];  *)
(*         the time says nothing of when a file came here                  *)
(*   rl    the published Resource List, and reference of Change Lists      *)
(*   cl    the published Change List: files it was made of, entries [ch,   *)
(*         at] per resource ("" if none), made of rl and the files         *)
(*   dst   copies of each client;  st   its recorded time (0: none)        *)
(*   clock stamps of Change Lists, later than all file times               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS R, V, T, C,      \* how many resources, contents, times, clients
          Stamps,          \* bound of Change Lists published
          Stamped,         \* entries tell when the change was found (otherwise the file's time)
          Depth            \* length of recorded histories, 0: none
VARIABLES src, rl, cl, dst, st, clock, last, hist
vars == <<src, rl, cl, dst, st, clock, last, hist>>

Res == 1..R
None == [v |-> 0, t |-> 0]
Nothing == [r \in Res |-> None]
NoCh == [ch |-> "", at |-> 0]
Max0(s) == IF s = {} THEN 0 ELSE Max(s)
Late == T + 100              \* time of a copy touched after everything else
Changed(a, b) == {r \in Res : a[r] # b[r]}
Entries(a, b, now) == [r \in Res |->
    IF a[r] = b[r] THEN NoCh
    ELSE IF b[r].v = 0 THEN [ch |-> "deleted", at |-> IF Stamped THEN now ELSE a[r].t]
    ELSE [ch |-> IF a[r].v = 0 THEN "created" ELSE "updated", at |-> IF Stamped THEN now ELSE b[r].t]]

Init == /\ src = Nothing /\ rl = [ok |-> FALSE, of |-> Nothing] /\ cl = [ok |-> FALSE, of |-> Nothing, es |-> [r \in Res |-> NoCh]]
        /\ dst = [c \in 1..C |-> Nothing] /\ st = [c \in 1..C |-> 0] /\ clock = T
        /\ last = [op |-> "init", c |-> 0] /\ hist = <<>>
Did(op, c, r, f) ==
    /\ last' = [op |-> op, c |-> c]
    /\ hist' = IF Depth = 0 THEN <<>>
               ELSE Append(hist, [op |-> op, c |-> c, r |-> r, v |-> f.v, t |-> f.t, src |-> src', dst |-> dst',
                                  es |-> [q \in Res |-> cl'.es[q].ch]])

---------------------------------------------------------------------------
Write(r, v, t) == /\ src[r] # [v |-> v, t |-> t]
                  /\ src' = [src EXCEPT ![r] = [v |-> v, t |-> t]]
                  /\ UNCHANGED <<rl, cl, dst, st, clock>> /\ Did("write", 0, r, [v |-> v, t |-> t])
Erase(r) == /\ src[r].v # 0 /\ src' = [src EXCEPT ![r] = None]
             /\ UNCHANGED <<rl, cl, dst, st, clock>> /\ Did("remove", 0, r, None)
Move(r, q) == /\ src[r].v # 0 /\ r # q /\ src' = [src EXCEPT ![q] = src[r], ![r] = None]
              /\ UNCHANGED <<rl, cl, dst, st, clock>> /\ Did("move", 0, r, [v |-> q, t |-> 0])
PublishRL == /\ rl' = [ok |-> TRUE, of |-> src]
             /\ UNCHANGED <<src, cl, dst, st, clock>> /\ Did("rl", 0, 0, None)
PublishCL == /\ rl.ok /\ clock < T + Stamps
             /\ clock' = clock + 1
             /\ cl' = [ok |-> TRUE, of |-> src, es |-> Entries(rl.of, src, clock')]
             /\ UNCHANGED <<src, rl, dst, st>> /\ Did("cl", 0, 0, None)
PublishDump == UNCHANGED <<src, rl, cl, dst, st, clock>> /\ Did("dump", 0, 0, None)
\* a user of the client's machine
Local(c, r, v, t) == /\ dst[c][r] # (IF v = 0 THEN None ELSE [v |-> v, t |-> t])
                     /\ dst' = [dst EXCEPT ![c][r] = IF v = 0 THEN None ELSE [v |-> v, t |-> t]]
                     /\ UNCHANGED <<src, rl, cl, st, clock>> /\ Did("local", c, r, dst'[c][r])

\* what is published is what is there
Baseline(c) ==
    /\ rl.ok /\ rl.of = src /\ src # Nothing
    /\ LET got == {src[r].t : r \in {r \in Changed(dst[c], src) : src[r].v # 0}} IN
       /\ dst' = [dst EXCEPT ![c] = src]
       /\ st' = [st EXCEPT ![c] = IF got = {} THEN @ ELSE Max(got)]
    /\ UNCHANGED <<src, rl, cl, clock>> /\ Did("baseline", c, 0, None)
\* the Change List covers all that the client lacks
Covered(c) == st[c] # 0 /\ \A r \in Changed(dst[c], src) : cl.es[r].ch # ""
Todo(c) == {r \in Res : cl.es[r].ch # "" /\ cl.es[r].at >= st[c]}
Incremental(c) ==
    /\ cl.ok /\ cl.of = src /\ Covered(c)
    /\ dst' = [dst EXCEPT ![c] = [r \in Res |-> IF r \in Todo(c) THEN src[r] ELSE @[r]]]
    /\ st' = [st EXCEPT ![c] = IF Todo(c) = {} THEN @ ELSE Max0({cl.es[r].at : r \in Res})]
    /\ UNCHANGED <<src, rl, cl, clock>> /\ Did("incremental", c, 0, None)

Guard == Len(hist) >= 0
Next == \/ Guard /\ \E r \in Res, v \in 1..V, t \in 1..T : Write(r, v, t)
        \/ Guard /\ \E r \in Res : Erase(r)
        \/ Guard /\ \E r, q \in Res : Move(r, q)
        \/ Guard /\ PublishRL
        \/ Guard /\ PublishCL
        \/ Depth > 0 /\ Guard /\ PublishCL
        \/ Depth > 0 /\ Guard /\ PublishDump
        \/ Guard /\ \E c \in 1..C, r \in Res, v \in 0..1, t \in {1, Late} : Local(c, r, v, t)
        \/ Guard /\ \E c \in 1..C : Baseline(c)
        \/ Guard /\ \E c \in 1..C : Incremental(c)
        \/ Depth > 0 /\ Guard /\ \E c \in 1..C : Baseline(c)
        \/ Depth > 0 /\ Guard /\ \E c \in 1..C : Incremental(c)
Spec == Init /\ [][Next]_vars
\* (what was done last is checked by action properties)
View == <<src, rl, cl, dst, st, clock>>
EmitHist == Len(hist') = Depth => PrintT(ToJson([steps |-> hist']))

---------------------------------------------------------------------------
\* a client that follows holds what the source holds
Reproduced == [][last'.op \in {"baseline", "incremental"} => dst'[last'.c] = src']_vars
\* nobody else's copies change, and the source is only read
Apart == [][last'.op \in {"baseline", "incremental"} => src' = src /\ \A c \in 1..C : c # last'.c => dst'[c] = dst[c] /\ st'[c] = st[c]]_vars
\* the Change List turns its reference into the files it was made of
Turns == cl.ok => \A r \in Res : cl.es[r].ch = "deleted" => cl.of[r].v = 0
InTime == \A c \in 1..C : st[c] <= clock
=============================================================================
