----------------------------- MODULE SyncStep -----------------------------
(* One client run from every combination of inputs in small bounds: the    *)
(* run-level properties are invariants, and every case is printed for      *)
(* replay into the real client.                                            *)
EXTENDS SyncProps, TLC, Json

CONSTANTS N,          \* number of resources
          Family      \* which input family to enumerate

VARIABLES in, out
vars == <<in, out>>

U == 1..N

(* What the listing, the destination and the source may hold for one       *)
(* resource.  Listed versions 1, 2; local copies that agree, that differ   *)
(* in time, in size, or only in content (3 has the size of 1).             *)
Pairs == [rl : {Absent, [v |-> 1, t |-> 10]},
          dst : {Absent, [v |-> 1, t |-> 10], [v |-> 1, t |-> 9], [v |-> 2, t |-> 10], [v |-> 3, t |-> 10],
                 [v |-> 3, t |-> 11], [v |-> Partial, t |-> Now]},
          src : {Absent, [v |-> 1, t |-> 10], [v |-> 4, t |-> 12]}]
(* keep to sources that serve what they list, or moved on since            *)
Small(p) == /\ (p.rl.v = 0 => p.src.v = 0 /\ p.dst \in {Absent, [v |-> 1, t |-> 10], [v |-> 3, t |-> 11]})
            /\ (p.rl.v = 1 => p.src.v # 0)

Combine(f, fld) == [u \in U |-> f[u][fld]]

Bools == BOOLEAN
Opts(del, dry, ign, audit, rlen, cmp, fault) ==
    [DefaultOpts(N) EXCEPT !.del = del, !.dry = dry, !.ign = ign, !.audit = audit, !.rlen = rlen, !.cmp = cmp,
                           !.fault = fault]
AllOk == [u \in U |-> "ok"]
SomeFaults == [U -> {"ok", "404", "trunc"}]

Case(op, f, cl, st, o) ==
    [op |-> op, rl |-> Combine(f, "rl"), cl |-> cl, src |-> Combine(f, "src"), dst |-> Combine(f, "dst"),
     st |-> st, o |-> o]

PlainPairs == {p \in Pairs : Small(p)}
FaultPairs == {p \in PlainPairs : p.rl.v = 1 /\ p.src.v = 1 /\ p.dst.v \in {0, 1, 3}}
                 \cup {[rl |-> Absent, dst |-> [v |-> 3, t |-> 11], src |-> Absent],
                       [rl |-> [v |-> 1, t |-> 10], dst |-> Absent, src |-> Absent]}
(* family "baseline": options x states, no faults                          *)
BaselineCases(z) ==
    {Case("baseline", f, <<>>, st, Opts(x[1], x[2], FALSE, x[3], x[4], x[5], AllOk)) :
        f \in [U -> PlainPairs], st \in {None, 5},
        x \in {<<TRUE, FALSE, FALSE, TRUE, FALSE>>, <<FALSE, FALSE, FALSE, TRUE, FALSE>>,
               <<TRUE, TRUE, FALSE, TRUE, FALSE>>, <<FALSE, TRUE, FALSE, TRUE, FALSE>>,
               <<FALSE, FALSE, TRUE, TRUE, FALSE>>, <<TRUE, FALSE, TRUE, TRUE, FALSE>>,
               <<TRUE, FALSE, FALSE, FALSE, FALSE>>, <<TRUE, FALSE, FALSE, TRUE, TRUE>>,
               <<FALSE, FALSE, TRUE, FALSE, TRUE>>}}

(* family "faults": baseline with failing transfers                        *)
FaultCases(z) ==
    {Case("baseline", f, <<>>, st, Opts(del, FALSE, ign, FALSE, TRUE, FALSE, flt)) :
        f \in [U -> FaultPairs], st \in {None, 5}, del \in BOOLEAN, ign \in BOOLEAN, flt \in SomeFaults}

(* family "notime": listings without modification times                    *)
NoTimePairs == {[rl |-> [v |-> 1, t |-> tt], dst |-> d, src |-> [v |-> 1, t |-> 10]] :
                  tt \in {NoT, 10}, d \in {Absent, [v |-> 1, t |-> 10]}}
NoTimeCases(z) ==
    {Case("baseline", f, <<>>, None, Opts(TRUE, dry, FALSE, audit, TRUE, FALSE, AllOk)) :
        f \in [U -> NoTimePairs], dry \in BOOLEAN, audit \in BOOLEAN}

(* families "inc" and "incfault": change lists up to length MaxCl          *)
Entries == [u : U, ch : {"created", "updated", "deleted"}, t : {2, 3, 4}]
Entry(e) == [u |-> e.u, ch |-> e.ch, t |-> e.t, m |-> IF e.ch = "deleted" THEN NoT ELSE e.t]
RECURSIVE Lists(_)
Lists(k) == IF k = 0 THEN {<<>>}
            ELSE Lists(k - 1) \cup
                 {Append(s, Entry(e)) : s \in {q \in Lists(k - 1) : Len(q) = k - 1},
                                        e \in Entries}
Sorted(cl) == \A i \in 1..Len(cl) - 1 : cl[i].t <= cl[i + 1].t
ChangeLists(k) == {cl \in Lists(k) : Sorted(cl)}
SrcOf(cl) == [u \in U |-> IF \E i \in DOMAIN cl : cl[i].u = u
                           THEN IF cl[LastFor(cl, u)].ch = "deleted" THEN Absent ELSE [v |-> 2, t |-> 4]
                           ELSE [v |-> 1, t |-> 1]]
IncCase(cl, dst, st, o) ==
    [op |-> "inc", rl |-> SrcOf(cl), cl |-> cl, src |-> SrcOf(cl), dst |-> dst, st |-> st, o |-> o]
Dsts == [U -> {Absent, [v |-> 1, t |-> 1]}]

IncOpts(del, dry, ign, fault, from) ==
    [DefaultOpts(N) EXCEPT !.del = del, !.dry = dry, !.ign = ign, !.fault = fault, !.from = from]
IncCases(k) ==
    {IncCase(cl, dst, x[3], IncOpts(x[1], x[2], FALSE, AllOk, x[4])) :
        cl \in ChangeLists(k), dst \in Dsts,
        x \in {<<d, y, s, f>> : d \in BOOLEAN, y \in BOOLEAN, s \in {1, 3}, f \in {None}}
              \cup {<<TRUE, FALSE, 4, None>>, <<TRUE, FALSE, None, None>>, <<TRUE, FALSE, None, 2>>,
                    <<FALSE, FALSE, 2, 3>>}}
IncFaultCases(k) ==
    {IncCase(cl, dst, 2, IncOpts(TRUE, FALSE, ign, flt, None)) :
        cl \in ChangeLists(k), dst \in Dsts, ign \in BOOLEAN, flt \in SomeFaults}

(* change entries with only one of the two times, or none                  *)
MixedEntry(e, k) == IF k = 1 THEN [e EXCEPT !.m = e.t, !.t = NoT]
                    ELSE IF k = 2 THEN [e EXCEPT !.m = NoT]
                    ELSE IF k = 3 THEN [e EXCEPT !.t = NoT, !.m = NoT]
                    ELSE IF k = 4 THEN [e EXCEPT !.m = 1] ELSE e
IncMixedCases(k) ==
    {IncCase([i \in DOMAIN cl |-> MixedEntry(cl[i], mx[i])], dst, 3, IncOpts(TRUE, FALSE, FALSE, AllOk, None)) :
        cl \in {c \in ChangeLists(k) : Len(c) >= 1}, dst \in Dsts, mx \in [1..k -> {1, 2, 3, 4}]}

Cases == CASE Family = "baseline" -> BaselineCases(0)
           [] Family = "faults"   -> FaultCases(0)
           [] Family = "notime"   -> NoTimeCases(0)
           [] Family = "inc2"     -> IncCases(2)
           [] Family = "inc3"     -> IncCases(3)
           [] Family = "incfault" -> IncFaultCases(2)
           [] Family = "incmixed" -> IncMixedCases(2)

Unset == [out |-> "unset"]
Init == in \in Cases /\ out = Unset
Next == out = Unset /\ out' = Run(in) /\ UNCHANGED in
Spec == Init /\ [][Next]_vars

Observed(r, was) == [out |-> r.out, dst |-> r.dst, st |-> r.st, gets |-> r.gets, events |-> r.events, status |-> r.status,
                     seen |-> TRUE, odd |-> 0, pure |-> r.dst = was.dst /\ r.st = was.st]
Follow(c, x) == [i \in DOMAIN FollowIn(c, x) |-> Run(FollowIn(c, x)[i])]
Emit == PrintT(ToJson([in |-> in, out |-> out', then |-> Follow(in, out'), follow |-> FollowKind(in)]))

---------------------------------------------------------------------------
(* The properties hold of the specification itself                         *)
Fails == IF out = Unset THEN {} ELSE Failing(in, Observed(out, in), Follow(in, out))
AllHold == Fails = {}
=============================================================================
