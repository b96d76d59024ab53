----------------------------- MODULE SyncTrace -----------------------------
(* Judges runs recorded from the real client: every record of the log is   *)
(* one run [i, in, obs, then].  Printed are the records that break a       *)
(* property (and, for information, those where the client did something    *)
(* else than the specification without breaking one).                      *)
EXTENDS SyncProps, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, judged
Case(r) == [r.in EXCEPT !.o.unauth = ToSet(r.in.o.unauth)]
Verdict(r) == [i |-> r.i, fails |-> Failing(Case(r), r.obs, r.then),
               same |-> LET m == Run(Case(r)) IN
                        m.out = r.obs.out /\ m.dst = r.obs.dst /\ m.st = r.obs.st /\ m.status = r.obs.status]
Init == l \in DOMAIN Log /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ l' = l
        /\ LET v == Verdict(Log[l]) IN IF v.fails = {} /\ v.same THEN TRUE ELSE PrintT(ToJson(v))
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
