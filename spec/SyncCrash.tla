----------------------------- MODULE SyncCrash ------------------------------
(***************************************************************************)
(* Runs file operation by file operation, with process death between any   *)
(* two of them and the same run again afterwards (S06).                    *)
(***************************************************************************)
EXTENDS SyncProps, TLC, Json

CONSTANTS N, MaxCrashes, Family

VARIABLES c,        \* the case
          left,     \* what the last death left on disk
          dst, st,  \* what is on disk
          plan,     \* operations left to do
          crashes, fin
vars == <<c, left, dst, st, plan, crashes, fin>>

Op(k, u, m) == [k |-> k, u |-> u, m |-> m]
Fetch(src, u, m) == <<Op("open", u, 0), Op("write", u, 0)>> \o (IF m = NoT THEN <<>> ELSE <<Op("utime", u, m)>>)
Cat(F(_), s) == FoldLeft(LAMBDA a, u : a \o F(u), <<>>, s)
\* what a run that starts with destination d and state s does
BasePlan(d, s) ==
    LET cr == InOrder(CreatedSet(c.rl, d))  up == InOrder(UpdatedSet(c.rl, d, c.o))  de == InOrder(DeletedSet(c.rl, d))
        last == MaxOf({c.rl[u].t : u \in CreatedSet(c.rl, d) \cup UpdatedSet(c.rl, d, c.o)} \ {NoT})
    IN Cat(LAMBDA u : Fetch(c.src, u, c.rl[u].t), cr \o up)
       \o (IF c.o.del THEN Cat(LAMBDA u : <<Op("unlink", u, 0)>>, de) ELSE <<>>)
       \o (IF last > 0 THEN <<Op("state", 0, last)>> ELSE <<>>)
IncPlan(d, s) ==
    LET todo == Reduce(Since(c.cl, s), Local(d))
        last == MaxOf({TimeOf(c.cl[i]) : i \in DOMAIN c.cl} \cup ({c.cl[i].m : i \in DOMAIN c.cl} \ {NoT}))
    IN IF todo = <<>> \/ (CountCh(todo, "deleted") = Len(todo) /\ ~c.o.del) THEN <<>>
       ELSE Cat(LAMBDA i : IF todo[i].ch = "deleted"
                           THEN IF c.o.del /\ d[todo[i].u].v # 0 THEN <<Op("unlink", todo[i].u, 0)>> ELSE <<>>
                           ELSE Fetch(c.src, todo[i].u, todo[i].m), [i \in DOMAIN todo |-> i])
            \o <<Op("state", 0, last)>>
Plan(d, s) == IF c.op = "baseline" THEN BasePlan(d, s) ELSE IncPlan(d, s)

Do(o) ==
    /\ dst' = CASE o.k = "open" -> [dst EXCEPT ![o.u] = [v |-> Partial, t |-> Now]]
                [] o.k = "write" -> [dst EXCEPT ![o.u] = [v |-> c.src[o.u].v, t |-> Now]]
                [] o.k = "utime" -> [dst EXCEPT ![o.u].t = o.m]
                [] o.k = "unlink" -> [dst EXCEPT ![o.u] = Absent]
                [] OTHER -> dst
    /\ st' = IF o.k = "state" THEN o.m ELSE st
Step == /\ plan # <<>> /\ Do(Head(plan)) /\ plan' = Tail(plan) /\ UNCHANGED <<c, left, crashes, fin>>
\* the process dies; the same run starts again
Crash == /\ ~fin /\ crashes < MaxCrashes
         /\ crashes' = crashes + 1 /\ left' = [dst |-> dst, st |-> st] /\ plan' = Plan(dst, st) /\ UNCHANGED <<c, dst, st, fin>>
Finish == plan = <<>> /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<c, left, dst, st, plan, crashes>>
Next == Step \/ Crash \/ Finish

---------------------------------------------------------------------------
(* cases: no faults besides the deaths                                     *)
U == 1..N
BPairs == [rl : {Absent, [v |-> 1, t |-> 10], [v |-> 1, t |-> NoT]},
           dst : {Absent, [v |-> 1, t |-> 10], [v |-> 2, t |-> 9], [v |-> 3, t |-> 11], [v |-> Partial, t |-> Now]}]
Fits(p) == p.rl.v = 0 => p.dst \in {Absent, [v |-> 1, t |-> 10], [v |-> 3, t |-> 11]}
BCases(z) == {[op |-> "baseline", rl |-> [u \in U |-> f[u].rl], cl |-> <<>>,
               src |-> [u \in U |-> IF f[u].rl.v = 0 THEN Absent ELSE [v |-> f[u].rl.v, t |-> 10]],
               dst |-> [u \in U |-> f[u].dst], st |-> s, o |-> [DefaultOpts(N) EXCEPT !.del = d, !.rlen = l]] :
                 f \in [U -> {p \in BPairs : Fits(p)}], s \in {None, 5}, d \in BOOLEAN, l \in BOOLEAN}
Ents == [u : U, ch : {"created", "updated", "deleted"}, t : {2, 3}]
Ent(e) == [u |-> e.u, ch |-> e.ch, t |-> e.t, m |-> IF e.ch = "deleted" THEN NoT ELSE e.t]
Lists == {<<>>} \cup {<<Ent(a)>> : a \in Ents} \cup {<<Ent(a), Ent(b)>> : a, b \in Ents}
         \cup {<<Ent(a), Ent(b), Ent(e)>> : a, b, e \in {x \in Ents : x.u = 1 \/ x.ch = "updated"}}
Ordered(cl) == \A i \in 1..Len(cl) - 1 : cl[i].t <= cl[i + 1].t
SrcOf(cl) == [u \in U |-> IF \E i \in DOMAIN cl : cl[i].u = u
                           THEN IF cl[LastFor(cl, u)].ch = "deleted" THEN Absent ELSE [v |-> 2, t |-> 3]
                           ELSE [v |-> 1, t |-> 1]]
ICases(z) == {[op |-> "inc", rl |-> SrcOf(cl), cl |-> cl, src |-> SrcOf(cl), dst |-> d, st |-> s,
               o |-> [DefaultOpts(N) EXCEPT !.del = x]] :
                 cl \in {q \in Lists : Ordered(q)}, d \in [U -> {Absent, [v |-> 1, t |-> 1]}], s \in {2, 3}, x \in BOOLEAN}
Cases == IF Family = "baseline" THEN {x \in BCases(0) : Detectable(x) /\ Listed(x.rl) # {} /\ (Timed(x) \/ x.o.rlen)} ELSE ICases(0)
Init == /\ c \in Cases /\ left = [dst |-> c.dst, st |-> c.st] /\ dst = c.dst /\ st = c.st /\ crashes = 0 /\ fin = FALSE
        /\ plan = IF c.op = "baseline" THEN BasePlan(c.dst, c.st) ELSE IncPlan(c.dst, c.st)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(Finish)

---------------------------------------------------------------------------
Obs(out) == [out |-> out, dst |-> dst, st |-> st]
\* uninterrupted, the operations amount to the run of Sync.tla
Refines == (fin /\ crashes = 0) => dst = Run(c).dst /\ st = Run(c).st
MidOk == ~fin => P_Mid(c, left, Obs("dead"))
FinOk == fin => P_Fin(c, left, Obs("ok"))
Ends == <>fin
Emit == (~fin /\ fin' /\ crashes = 0) => PrintT(ToJson([in |-> c]))
=============================================================================
