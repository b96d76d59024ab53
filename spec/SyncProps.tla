----------------------------- MODULE SyncProps -----------------------------
(***************************************************************************)
(* The run-level properties as predicates over one run: its input c, what  *)
(* came out of it (x) and out of the follow-up runs (th).  SyncStep checks *)
(* them as invariants of the specification's own runs; SyncTrace evaluates *)
(* the same predicates on runs recorded from the real client.              *)
(*                                                                         *)
(* x: out ("ok"/"fatal"), dst, st, gets (resources requested, in order),   *)
(* events (logged), status (status lines), seen (whether gets could be observed), odd       *)
(* (number of effects outside the destination), pure (nothing on disk      *)
(* changed at all).                                                        *)
(***************************************************************************)
EXTENDS Sync

Univ(c) == DOMAIN c.dst
Run(c) == IF c.op = "baseline" THEN Baseline(c.rl, c.src, c.dst, c.st, c.o)
                               ELSE Incremental(c.cl, c.src, c.dst, c.st, c.o)
ClearFaults(c) == [c EXCEPT !.o.fault = [u \in Univ(c) |-> "ok"]]
FromHere(c, x) == [c EXCEPT !.dst = x.dst, !.st = x.st]

NoFaults(c) == \A u \in Univ(c) : c.o.fault[u] = "ok"

(* Follow-up runs: after a run with faults the same run without them;      *)
(* after a plain baseline an audit and the same baseline again             *)
FollowKind(c) == IF ~NoFaults(c) THEN "repeat"
                 ELSE IF c.op = "baseline" /\ ~c.o.audit /\ ~c.o.dry THEN "again" ELSE "none"
FollowIn(c, x) == LET d == FromHere(ClearFaults(c), x)
                  IN CASE FollowKind(c) = "repeat" -> <<d>>
                       [] FollowKind(c) = "again"  -> <<[d EXCEPT !.o.audit = TRUE], d>>
                       [] OTHER -> <<>>

(* the source serves what it lists *)
Quiet(c) == \A u \in Univ(c) : c.rl[u].v # 0 => c.src[u].v = c.rl[u].v
Timed(c) == \A u \in Univ(c) : c.rl[u].v # 0 => c.rl[u].t # NoT
(* copies that look right are right: without digests others cannot be told *)
Detectable(c) == \A u \in Univ(c) : c.rl[u].v # 0 /\ c.dst[u].v # 0 =>
                    (SameCopy(c.rl[u], c.dst[u], c.o) <=> c.rl[u].v = c.dst[u].v /\ c.rl[u].t = c.dst[u].t)
Authorised(c) == c.o.noauth \/ c.o.unauth = {}

---------------------------------------------------------------------------
P_S01(c, x, th) ==
    (/\ c.op = "baseline" /\ ~c.o.audit /\ ~c.o.dry /\ c.o.del
     /\ Listed(c.rl) # {} /\ Quiet(c) /\ Timed(c) /\ NoFaults(c) /\ Detectable(c) /\ Authorised(c))
    => /\ x.out = "ok"
       /\ Mirrors(x.dst, c.rl, c.src)
       /\ Len(th) = 2
       /\ th[1].out = "ok" /\ Len(th[1].status) = 1 /\ th[1].status[1].name = "IN SYNC"
       /\ th[2].out = "ok" /\ th[2].gets = <<>> /\ th[2].dst = x.dst

MayDelete(c, u) == /\ c.o.del /\ ~c.o.dry /\ ~c.o.audit
                   /\ c.op = "baseline" => c.rl[u].v = 0
                   /\ c.op = "inc" => \E i \in DOMAIN c.cl : c.cl[i].u = u /\ c.cl[i].ch = "deleted"
P_S02(c, x, th) ==
    /\ x.odd = 0
    /\ \A u \in Univ(c) :
        /\ (c.dst[u].v # 0 /\ x.dst[u].v = 0) => MayDelete(c, u)
        /\ (c.op = "baseline" /\ c.rl[u].v # 0 /\ c.dst[u].v # 0 /\ SameCopy(c.rl[u], c.dst[u], c.o))
               => x.dst[u] = c.dst[u] /\ (\A i \in DOMAIN x.gets : x.gets[i] # u)
        /\ (c.op = "baseline" /\ c.rl[u].v = 0) => x.dst[u] \in {c.dst[u], Absent}
        /\ (c.op = "inc" /\ (\A i \in DOMAIN c.cl : c.cl[i].u # u)) => x.dst[u] = c.dst[u]

PlanOf(c) == Run([c EXCEPT !.o.audit = TRUE]).status
P_S03(c, x, th) ==
    c.o.audit \/ c.o.dry =>
        /\ x.pure /\ x.dst = c.dst /\ x.st = c.st /\ x.gets = <<>>
        /\ (c.op = "baseline" /\ Listed(c.rl) # {} /\ c.o.audit) => x.out = "ok" /\ x.status = PlanOf(c)
        /\ (c.op = "baseline" /\ Listed(c.rl) # {} /\ x.out = "ok") =>
               /\ x.status # <<>>
               /\ x.status[1].name = "IN SYNC" <=>
                    \A u \in Univ(c) : IF c.rl[u].v = 0 THEN c.dst[u].v = 0
                                       ELSE c.dst[u].v # 0 /\ SameCopy(c.rl[u], c.dst[u], c.o)

(* the recorded time: the step-level part of S04 *)
P_S04(c, x, th) ==
    /\ (c.op = "inc" /\ c.st = None /\ c.o.from = None) => x.out = "fatal" /\ x.dst = c.dst /\ x.st = None
    /\ (c.op = "inc" /\ c.o.from = Junk) => x.out = "fatal" /\ x.dst = c.dst /\ x.st = c.st /\ x.gets = <<>>
    /\ (x.out = "ok" /\ NoFaults(c)) => x.st = Run(c).st

AttemptedBad(c, x) == {u \in Univ(c) : (\E i \in DOMAIN x.gets : x.gets[i] = u) /\ ~TransferOk(c.src, c.o, u)}
P_S06(c, x, th) ==
    /\ x.out = "fatal" => x.st = c.st
    /\ (~c.o.ign /\ AttemptedBad(c, x) # {}) => x.out = "fatal"
    /\ (Run(c).out = "fatal" /\ ~NoFaults(c)) => x.out = "fatal"
    /\ \A u \in Univ(c) : x.dst[u].v = Partial => c.dst[u].v = Partial \/ c.o.fault[u] = "trunc"
    /\ \A u \in Univ(c) : x.dst[u].v \in {c.dst[u].v, c.src[u].v, 0, Partial}
    \* a failed download leaves the copy as it was, or torn and not dressed up as done
    /\ \A u \in AttemptedBad(c, x) :
          \/ x.dst[u] = c.dst[u]
          \/ x.dst[u].v = Partial /\ (c.op = "baseline" => x.dst[u].t # c.rl[u].t)
    \* an ignored failure affects nothing else
    /\ (c.o.ign /\ ~NoFaults(c) /\ Run(c).out = "ok") =>
          /\ x.out = "ok"
          /\ \A u \in Univ(c) : TransferOk(c.src, c.o, u) => x.dst[u] = Run(c).dst[u]
    \* failures ignored by a baseline are made good by the next one
    /\ (x.out = "ok" /\ c.op = "baseline" /\ ~c.o.audit /\ ~c.o.dry /\ FollowKind(c) = "repeat"
            /\ Run(ClearFaults(c)).out = "ok" /\ Quiet(c) /\ Detectable(c)) =>
           LET clean == Run(ClearFaults(c))
           IN /\ Len(th) = 1 /\ th[1].out = "ok"
              /\ \A u \in Univ(c) : th[1].dst[u].v = clean.dst[u].v
    /\ (x.out = "fatal" /\ FollowKind(c) = "repeat" /\ Run(ClearFaults(c)).out = "ok" /\ Quiet(c) /\ Detectable(c)) =>
           LET clean == Run(ClearFaults(c))
           IN /\ Len(th) = 1 /\ th[1].out = "ok"
              /\ th[1].st <= clean.st \/ th[1].st = c.st
              /\ c.op = "inc" => th[1].st = clean.st
              /\ \A u \in Univ(c) : th[1].dst[u].v = clean.dst[u].v
              /\ Timed(c) => \A u \in Univ(c) : th[1].dst[u].t = clean.dst[u].t \/ c.dst[u].v = Partial
                                                  \/ th[1].dst[u] = c.dst[u]

OkGets(c, x) == {u \in Univ(c) : (\E i \in DOMAIN x.gets : x.gets[i] = u) /\ TransferOk(c.src, c.o, u)}
Removed(c, x) == {u \in Univ(c) : c.dst[u].v # 0 /\ x.dst[u].v = 0}
\* the events logged are what happened, also in a run that fails later
P_Events(c, x) ==
    LET Of(chs) == {x.events[i].u : i \in {j \in DOMAIN x.events : x.events[j].ch \in chs}} IN
    /\ \A i, j \in DOMAIN x.events : x.events[i].u = x.events[j].u => i = j
    /\ Of({"deleted"}) = Removed(c, x)
    /\ x.seen => Of({"created", "updated"}) = OkGets(c, x)
    /\ \A u \in Of({"created", "updated"}) : x.dst[u].v = c.src[u].v
    /\ Run(c).out = x.out => x.events = Run(c).events
P_S09(c, x, th) ==
    /\ P_Events(c, x)
    /\ x.out = "ok" =>
        /\ x.status # <<>>
        /\ Run(c).out = "ok" => x.status = Run(c).status
        /\ Len(x.status) = 2 =>
              LET s == x.status[2] IN
              /\ x.seen => s.created + s.updated = Cardinality(OkGets(c, x))
              /\ s.name \in {"SYNCED", "CHANGES APPLIED"} => s.deleted = Cardinality(Removed(c, x))
              /\ s.name \in {"PART SYNCED", "PART APPLIED"} => s.deleted > Cardinality(Removed(c, x))
        /\ c.op = "baseline" =>
              LET s == x.status[1] IN
              /\ s.same + s.created + s.updated = Cardinality(Listed(c.rl))
              /\ s.same + s.updated + s.deleted = Cardinality(Local(c.dst))
              /\ (s.name = "IN SYNC" <=> s.created + s.updated + s.deleted = 0)
        /\ Len(x.status) = 2 =>
              \A ch \in {"created", "updated"} :
                  x.status[2][ch] = Cardinality({i \in DOMAIN x.events : x.events[i].ch = ch})

(* Process death: what may be on disk afterwards, and after running the    *)
(* same again without interruption (part of S06).                          *)
SameVersions(d, e) == \A u \in DOMAIN d : d[u].v = e[u].v
Meant(c, u) == IF c.op = "baseline" THEN c.rl[u].v # 0 /\ ~(c.dst[u].v # 0 /\ SameCopy(c.rl[u], c.dst[u], c.o))
               ELSE \E i \in DOMAIN c.cl : c.cl[i].u = u /\ c.cl[i].ch # "deleted"
\* m: what this attempt began with
P_Mid(c, m, x) ==
    LET clean == Run(c) IN
    /\ x.st \in {c.st, clean.st}
    /\ x.st # m.st => SameVersions(x.dst, clean.dst)
    /\ \A u \in Univ(c) :
          \/ x.dst[u] = c.dst[u]
          \/ x.dst[u].v = 0 /\ (MayDelete(c, u) \/ c.dst[u].v = 0)
          \/ Meant(c, u) /\ x.dst[u].v \in {Partial, c.src[u].v}
\* m: what the last death left
P_Fin(c, m, x) ==
    LET clean == Run(c) IN
    /\ x.out = clean.out
    /\ SameVersions(x.dst, clean.dst)
    /\ \A u \in Univ(c) : clean.dst[u].t # Now => x.dst[u].t = clean.dst[u].t
    \* what is left to do may be less than the whole, so the time it records may be earlier
    /\ x.st = clean.st \/ x.st = Run(FromHere(c, m)).st

(* A list that cannot be had or read: nothing is done, and the same run    *)
(* afterwards is as if nothing had happened.                               *)
P_NoList(c, x, th) ==
    /\ x.out = "fatal" /\ x.dst = c.dst /\ x.st = c.st /\ x.gets = <<>>
    /\ Len(th) = 1 /\ LET clean == Run(c) IN th[1].out = clean.out /\ th[1].dst = clean.dst /\ th[1].st = clean.st

Failing(c, x, th) ==
    {p \in {"S01", "S02", "S03", "S04", "S06", "S09"} :
        ~ CASE p = "S01" -> P_S01(c, x, th) [] p = "S02" -> P_S02(c, x, th) [] p = "S03" -> P_S03(c, x, th)
            [] p = "S04" -> P_S04(c, x, th) [] p = "S06" -> P_S06(c, x, th) [] OTHER -> P_S09(c, x, th)}
=============================================================================
