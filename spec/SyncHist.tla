------------------------------ MODULE SyncHist ------------------------------
(***************************************************************************)
(* Histories of a changing source and a client that synchronizes now and   *)
(* then: the source creates, updates and deletes resources (several        *)
(* changes may carry the same time), publishes its Resource List and its   *)
(* Change List, the client runs baseline and incremental synchronizations  *)
(* (deletion permitted), possibly with transfers failing.                  *)
(*                                                                         *)
(* clean (ghost): some run completed without failures and recorded a time, *)
(* and only failed runs or further such runs came after it.  Then whatever *)
(* the source does, an incremental run from the recorded time with a       *)
(* Change List that covers the time since makes the destination equal to   *)
(* the source.                                                             *)
(***************************************************************************)
EXTENDS SyncProps, TLC, Json

CONSTANTS N,        \* resources
          MaxT,     \* last time
          MaxV,     \* versions per resource
          MaxLen,   \* source changes
          Depth,    \* steps printed per history (simulation)
          Lag       \* whether published lists may lag behind the source

U == 1..N
VARIABLES src, now, log,       \* source: content, time, all its changes
          prl, pcl,            \* published Resource List and number of changes published
          dst, st,             \* client
          used,                \* number of changes reflected in the lists used so far
          clean, hist
vars == <<src, now, log, prl, pcl, dst, st, used, clean, hist>>
view == <<src, now, log, prl, pcl, dst, st, used, clean>>

Opt(f) == [DefaultOpts(N) EXCEPT !.fault = f]
AllOk == [u \in U |-> "ok"]

VerAt(u) == Cardinality({i \in DOMAIN log : log[i].u = u /\ log[i].ch # "deleted"}) + 1

Init == /\ src \in [U -> {Absent, [v |-> 1, t |-> 1]}]
        /\ now = 1 /\ log = <<>> /\ prl = [rl |-> src, n |-> 0] /\ pcl = 0
        /\ dst = [u \in U |-> Absent] /\ st = None /\ used = 0 /\ clean = FALSE
        /\ hist = <<[a |-> "init", src |-> src]>>

(* The source changes one resource, at the present time or later.          *)
Change(u, ch, t) ==
    /\ Len(log) < MaxLen
    /\ t \in {now, now + 1} /\ t <= MaxT
    /\ IF ch = "created" THEN src[u].v = 0 ELSE src[u].v # 0
    /\ ch # "deleted" => VerAt(u) < MaxV
    /\ now' = t
    /\ src' = [src EXCEPT ![u] = IF ch = "deleted" THEN Absent ELSE [v |-> VerAt(u) + 1, t |-> t]]
    /\ log' = Append(log, [u |-> u, ch |-> ch, t |-> t, m |-> IF ch = "deleted" THEN NoT ELSE t])
    /\ IF Lag THEN UNCHANGED <<prl, pcl>> ELSE prl' = [rl |-> src', n |-> Len(log')] /\ pcl' = Len(log')
    /\ UNCHANGED <<dst, st, used, clean>>
    /\ hist' = Append(hist, [a |-> "change", u |-> u, src |-> src', cl |-> log'])

PublishRL == /\ Lag /\ prl.n # Len(log)
             /\ prl' = [rl |-> src, n |-> Len(log)]
             /\ UNCHANGED <<src, now, log, pcl, dst, st, used, clean>>
             /\ hist' = Append(hist, [a |-> "rl", rl |-> src])
PublishCL == /\ Lag /\ pcl # Len(log)
             /\ pcl' = Len(log)
             /\ UNCHANGED <<src, now, log, prl, dst, st, used, clean>>
             /\ hist' = Append(hist, [a |-> "cl", cl |-> log])

(* The Change List published: everything, or only from some change on that *)
(* leaves out only changes before the recorded time.                       *)
Windows(n, s) == {k \in 1..n + 1 : \A i \in 1..k - 1 : log[i].t < s}
ClAt(k, n) == SubSeq(log, k, n)

Step(c, kind, n) ==
    LET r == Run(c) IN
    /\ dst' = r.dst /\ st' = r.st
    /\ used' = IF r.out = "ok" THEN Max({used, n}) ELSE used
    /\ clean' = IF r.out = "ok" /\ kind = "baseline" THEN Detectable(c) /\ r.st # None ELSE clean
    /\ UNCHANGED <<src, now, log, prl, pcl>>
    /\ hist' = Append(hist, [a |-> kind, in |-> c, out |-> r])

\* (ignoring failures is covered by SyncStep)
Case(op, cl, f) == [op |-> op, rl |-> prl.rl, cl |-> cl, src |-> src, dst |-> dst, st |-> st, o |-> Opt(f)]

Faults == {AllOk} \cup {[AllOk EXCEPT ![u] = k] : u \in U, k \in {"404", "trunc"}}

DoBaseline(f) == prl.n >= used /\ Step(Case("baseline", <<>>, f), "baseline", prl.n)
DoInc(f) == /\ pcl >= used
            /\ \E k \in (IF st = None THEN {1} ELSE Windows(pcl, st)) : Step(Case("inc", ClAt(k, pcl), f), "inc", pcl)

Next == \/ \E u \in U, ch \in {"created", "updated", "deleted"}, t \in 1..MaxT : Change(u, ch, t)
        \/ PublishRL \/ PublishCL
        \/ \E f \in Faults : DoBaseline(f) \/ DoInc(f)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* S04: nothing is missed *)
NothingMissed ==
    clean => /\ st # None
             /\ \A k \in Windows(Len(log), st) :
                   LET r == Run(Case("inc", ClAt(k, Len(log)), AllOk))
                   IN r.out = "ok" /\ SameContent(r.dst, src)
(* a completed, clean destination with everything used is already there    *)
NoLaterThanSource == st # None => st <= now

EmitHist == Len(hist') = Depth + 1 => PrintT(ToJson([ev |-> hist']))
=============================================================================
