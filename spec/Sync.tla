------------------------------- MODULE Sync -------------------------------
(***************************************************************************)
(* The synchronization client as pure operators: what one audit, baseline  *)
(* or incremental run does to the destination and to the stored state, as  *)
(* a function of the documents published by the source, the content the    *)
(* source serves, the destination, the stored state, options and faults.   *)
(*                                                                         *)
(* Resources are numbered 1..N in the order of their URIs.  A copy is      *)
(* [v |-> content version, t |-> time]; v = 0 is "absent", v = Partial is  *)
(* the torn content left by a transfer that broke off.  Times are whole    *)
(* seconds >= 1; NoT means "no time given"; Now is the time a file gets    *)
(* when nobody sets one (later than every listed time).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

NoT     == -1
Partial == -7
Now     == 1000000
None    == 0             \* no stored state
Absent  == [v |-> 0, t |-> 0]

\* Versions share their size with every second other version, so that neither
\* size nor time alone tells versions apart.
LenOf(v) == IF v = Partial THEN Partial ELSE v % 2

MaxOf(S) == IF S = {} THEN 0 ELSE Max(S)

---------------------------------------------------------------------------
(* Comparison of a listing entry with a local copy.                        *)
(* o.rlen: the listing gives lengths; o.cmp: digests compared              *)
SameCopy(l, d, o) ==
    /\ l.t # NoT
    /\ l.t = d.t
    /\ (o.rlen => LenOf(l.v) = LenOf(d.v))
    /\ (o.cmp => l.v = d.v)

Listed(rl)        == {u \in DOMAIN rl : rl[u].v # 0}
Local(dst)        == {u \in DOMAIN dst : dst[u].v # 0}
CreatedSet(rl, dst)   == Listed(rl) \ Local(dst)
DeletedSet(rl, dst)   == Local(dst) \ Listed(rl)
SameSet(rl, dst, o)   == {u \in Listed(rl) \cap Local(dst) : SameCopy(rl[u], dst[u], o)}
UpdatedSet(rl, dst, o) == {u \in Listed(rl) \cap Local(dst) : ~SameCopy(rl[u], dst[u], o)}

InOrder(S) == SetToSortSeq(S, LAMBDA x, y : x < y)

(* A transfer of u with listed time m.  Faults: "ok", "404" (refused: the  *)
(* local copy is untouched), "trunc" (breaks off while the local copy is   *)
(* being written).  A resource the source no longer has is refused.        *)
Fault(src, o, u) == IF o.fault[u] = "ok" /\ src[u].v = 0 THEN "404" ELSE o.fault[u]

TransferOk(src, o, u) == Fault(src, o, u) = "ok"

AfterTransfer(src, d, o, u, m) ==
    CASE Fault(src, o, u) = "ok"    -> [v |-> src[u].v, t |-> IF m = NoT THEN Now ELSE m]
      [] Fault(src, o, u) = "404"   -> d
      [] OTHER                      -> [v |-> Partial, t |-> Now]

(* State of a run: dst, last (latest time seen), nc/nu/nd counters, gets   *)
(* (resources requested, in order), ev (events: what was transferred or    *)
(* deleted, in order), dead (ended by a fatal error).                      *)
Run0(dst, last) == [dst |-> dst, last |-> last, nc |-> 0, nu |-> 0, nd |-> 0, gets |-> <<>>, ev |-> <<>>, dead |-> FALSE]

Update(r, src, o, u, m, counter) ==
    IF r.dead \/ o.dry THEN r
    ELSE LET good == TransferOk(src, o, u)
         IN [r EXCEPT !.dst[u] = AfterTransfer(src, r.dst[u], o, u, m),
                      !.gets = Append(@, u),
                      !.ev = IF good THEN Append(@, [u |-> u, ch |-> counter]) ELSE @,
                      !.dead = ~good /\ ~o.ign,
                      !.last = IF good /\ m # NoT /\ m > @ THEN m ELSE @,
                      !.nc = IF good /\ counter = "created" THEN @ + 1 ELSE @,
                      !.nu = IF good /\ counter = "updated" THEN @ + 1 ELSE @]

Delete(r, o, u) ==
    IF r.dead \/ o.dry \/ ~o.del \/ r.dst[u].v = 0 THEN r
    ELSE [r EXCEPT !.dst[u] = Absent, !.nd = @ + 1, !.ev = Append(@, [u |-> u, ch |-> "deleted"])]

Fold(Op(_, _), r, s) == FoldLeft(Op, r, s)

---------------------------------------------------------------------------
(* Status lines                                                            *)
NoStatus == <<>>
Status(name, same, c, u, d) == <<[name |-> name, same |-> same, created |-> c, updated |-> u, deleted |-> d]>>

Final(words, same, r, todel) ==
    IF todel > r.nd THEN Status("PART " \o words, same, r.nc, r.nu, todel)
                    ELSE Status(IF words = "APPLIED" THEN "CHANGES APPLIED" ELSE words, same, r.nc, r.nu, r.nd)

Result(out, dst, st, gets, ev, status) ==
    [out |-> out, dst |-> dst, st |-> st, gets |-> gets, events |-> ev, status |-> status]

---------------------------------------------------------------------------
(* Baseline synchronization and audit (o.audit).                           *)
(* o: audit, del, dry, ign, rlen, cmp, fault, noauth, unauth (set of       *)
(* resources the list has no authority over)                               *)
Baseline(rl, src, dst, st, o) ==
    LET cr == CreatedSet(rl, dst)
        up == UpdatedSet(rl, dst, o)
        de == DeletedSet(rl, dst)
        sa == SameSet(rl, dst, o)
        insync == cr \cup up \cup de = {}
        plan == Status(IF insync THEN "IN SYNC" ELSE "NOT IN SYNC",
                       Cardinality(sa), Cardinality(cr), Cardinality(up), Cardinality(de))
        r1 == Fold(LAMBDA r, u : Update(r, src, o, u, rl[u].t, "created"), Run0(dst, 0), InOrder(cr))
        r2 == Fold(LAMBDA r, u : Update(r, src, o, u, rl[u].t, "updated"), r1, InOrder(up))
        r3 == Fold(LAMBDA r, u : Delete(r, o, u), r2, InOrder(de))
    IN  CASE Listed(rl) = {} -> Result("fatal", dst, st, <<>>, <<>>, NoStatus)
          [] Listed(rl) # {} /\ (o.audit \/ insync) -> Result("ok", dst, st, <<>>, <<>>, plan)
          [] Listed(rl) # {} /\ ~(o.audit \/ insync) /\ ~o.noauth /\ o.unauth \cap Listed(rl) # {}
                -> Result("fatal", dst, st, <<>>, <<>>, plan)
          [] OTHER ->
                IF r3.dead
                THEN Result("fatal", r3.dst, st, r3.gets, r3.ev, plan)
                ELSE Result("ok", r3.dst, IF ~o.dry /\ r3.last > 0 THEN r3.last ELSE st, r3.gets, r3.ev,
                            plan \o Final("SYNCED", Cardinality(sa), r3, Cardinality(de)))

---------------------------------------------------------------------------
(* Change lists: sequences of [u, ch, t (time of change), m (listed time   *)
(* of modification or NoT)]; t = NoT when only m is given.                 *)
TimeOf(c) == IF c.t = NoT THEN c.m ELSE c.t

Since(cl, from) == SelectSeq(cl, LAMBDA c : TimeOf(c) >= from)

FirstFor(cl, u) == CHOOSE i \in DOMAIN cl : cl[i].u = u /\ \A j \in DOMAIN cl : cl[j].u = u => i <= j
LastFor(cl, u)  == CHOOSE i \in DOMAIN cl : cl[i].u = u /\ \A j \in DOMAIN cl : cl[j].u = u => j <= i

(* Keep the last change of every resource; drop a resource whose first     *)
(* change is its creation and whose last is its deletion unless kept.      *)
KeptIdx(cl, keep) ==
    {i \in DOMAIN cl :
        /\ i = LastFor(cl, cl[i].u)
        /\ ~( /\ cl[i].ch = "deleted"
              /\ cl[FirstFor(cl, cl[i].u)].ch = "created"
              /\ cl[i].u \notin keep)}
Reduce(cl, keep) == LET idx == InOrder(KeptIdx(cl, keep)) IN [k \in 1..Len(idx) |-> cl[idx[k]]]

CountCh(cl, ch) == Cardinality({i \in DOMAIN cl : cl[i].ch = ch})

Apply1(r, src, o, c) ==
    IF c.ch = "deleted" THEN Delete(r, o, c.u) ELSE Update(r, src, o, c.u, c.m, c.ch)

(* Incremental synchronization.  o.from: explicit start time or None;       *)
(* a text that is no time (Junk) does not fall back to the recorded one     *)
Junk == -1
Incremental(cl, src, dst, st, o) ==
    LET from == IF o.from # None THEN o.from ELSE st
        dated == \A i \in DOMAIN cl : TimeOf(cl[i]) # NoT
        todo == Reduce(Since(cl, from), Local(dst))
        nd == CountCh(todo, "deleted")
        plan == Status(IF todo = <<>> THEN "NO CHANGES" ELSE "NOT IN SYNC",
                       NoT, CountCh(todo, "created"), CountCh(todo, "updated"), nd)
        last0 == MaxOf({TimeOf(cl[i]) : i \in DOMAIN cl})
        r == Fold(LAMBDA x, c : Apply1(x, src, o, c), Run0(dst, last0), todo)
    IN  CASE from \in {None, Junk} -> Result("fatal", dst, st, <<>>, <<>>, NoStatus)
          [] from \notin {None, Junk} /\ ~dated -> Result("fatal", dst, st, <<>>, <<>>, NoStatus)
          [] from \notin {None, Junk} /\ dated /\ ~o.noauth /\ (\E i \in DOMAIN cl : cl[i].u \in o.unauth)
                -> Result("fatal", dst, st, <<>>, <<>>, NoStatus)
          [] OTHER ->
                IF todo = <<>> \/ (Len(todo) = nd /\ ~o.del)
                THEN Result("ok", dst, st, <<>>, <<>>, plan)
                ELSE IF r.dead
                THEN Result("fatal", r.dst, st, r.gets, r.ev, plan)
                ELSE Result("ok", r.dst, IF ~o.dry /\ r.last > 0 THEN r.last ELSE st, r.gets, r.ev,
                            plan \o Final("APPLIED", NoT, r, nd))

---------------------------------------------------------------------------
(* The same content, modification times included, as listed                *)
Mirrors(dst, rl, src) ==
    \A u \in DOMAIN dst : IF rl[u].v = 0 THEN dst[u].v = 0
                          ELSE dst[u].v = src[u].v /\ dst[u].t = rl[u].t
SameContent(dst, src) == \A u \in DOMAIN dst : dst[u].v = src[u].v

DefaultOpts(n) == [audit |-> FALSE, del |-> TRUE, dry |-> FALSE, ign |-> FALSE, rlen |-> TRUE, cmp |-> FALSE,
                   fault |-> [u \in 1..n |-> "ok"], noauth |-> FALSE, unauth |-> {}, from |-> None]
=============================================================================
