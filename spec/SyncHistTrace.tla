--------------------------- MODULE SyncHistTrace ---------------------------
(***************************************************************************)
(* Judges recorded histories of the real client.  One log record is one    *)
(* history [i, ev]; an event is                                            *)
(*   [a |-> "src", src, log]        what the source holds now and all its  *)
(*                                  changes so far                         *)
(*   [a |-> "run", in, obs]         a synchronization (in: its input with  *)
(*                                  the destination and state the client   *)
(*                                  really had)                            *)
(*   [a |-> "probe", obs, from]     result of an incremental run with a    *)
(*                                  covering Change List on a copy of the  *)
(*                                  client's present destination and state *)
(* Running over the events it tracks whether the client is clean, as in    *)
(* SyncHist, and demands of every probe in a clean state that the          *)
(* destination has become equal to the source.                             *)
(***************************************************************************)
EXTENDS SyncProps, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, judged
Case(in) == [in EXCEPT !.o.unauth = ToSet(in.o.unauth)]

\* s: [src, clean, bad (set of [k, why])]
After(s, e, k) ==
    CASE e.a = "src" -> [s EXCEPT !.src = e.src]
      [] e.a = "run" ->
            LET c == Case(e.in) IN
            [s EXCEPT !.clean = IF c.op = "baseline" /\ e.obs.out = "ok" THEN Detectable(c) /\ e.obs.st # None ELSE @,
                      !.bad = @ \cup (IF P_S04(c, e.obs, <<>>) THEN {} ELSE {[k |-> k, why |-> "recorded time"]})
                                \cup (IF e.obs.out = "ok" /\ ~c.o.ign /\ AttemptedBad(c, e.obs) # {}
                                      THEN {[k |-> k, why |-> "failure taken for success"]} ELSE {})]
      [] OTHER ->
            [s EXCEPT !.bad = @ \cup (IF s.clean => e.obs.out = "ok" /\ SameContent(e.obs.dst, s.src) THEN {}
                                      ELSE {[k |-> k, why |-> "change missed"]})]
Verdict(h) ==
    LET R == FoldLeft(LAMBDA s, k : After(s, h.ev[k], k), [src |-> <<>>, clean |-> FALSE, bad |-> {}],
                      [k \in 1..Len(h.ev) |-> k])
    IN [i |-> h.i, bad |-> R.bad]
Init == l \in DOMAIN Log /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ l' = l
        /\ LET v == Verdict(Log[l]) IN IF v.bad = {} THEN TRUE ELSE PrintT(ToJson(v))
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
