-------------------------- MODULE SyncCrashTrace ---------------------------
(* Judges real runs that were killed and started again, and real runs that *)
(* could not have their list.                                              *)
(* [i, kind |-> "crash", in, left (states on disk: at the beginning and    *)
(* after every death), fin]  or  [i, kind |-> "nolist", in, obs, then]     *)
EXTENDS SyncProps, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, judged
Fit(c) == /\ NoFaults(c) /\ Run(c).out = "ok"
          /\ c.op = "baseline" => Detectable(c) /\ (Timed(c) \/ c.o.rlen) /\ Quiet(c)
Fails(r) ==
    IF ~Fit(r.in) THEN {}
    ELSE IF r.kind = "nolist" THEN IF P_NoList(r.in, r.obs, r.then) THEN {} ELSE {"list"}
    ELSE LET n == Len(r.left) IN
         {<<"mid", k>> : k \in {k \in 2..n : ~P_Mid(r.in, r.left[k - 1], r.left[k])}}
         \cup (IF P_Fin(r.in, r.left[n], r.fin) THEN {} ELSE {<<"fin", n>>})
         \cup (IF r.odd = 0 THEN {} ELSE {<<"odd", 0>>})
Init == l \in DOMAIN Log /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ l' = l
        /\ LET r == Log[l]  f == Fails([r EXCEPT !.in.o.unauth = ToSet(@)])
               fit == Fit([r.in EXCEPT !.o.unauth = ToSet(@)])
           IN IF f = {} /\ fit THEN TRUE ELSE PrintT(ToJson([i |-> r.i, fails |-> f, fit |-> fit]))
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
