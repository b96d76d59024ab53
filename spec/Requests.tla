------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Web requests of one process (C03): a history of opening web ("get",     *)
(* "head") and local ("file") references, with the configuration of bearer *)
(* token and delay changed in between.  For each opening: the token sent   *)
(* (0 none; not for files), whether it is delayed.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Depth
Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)
Acts == {<<"get", 0>>, <<"head", 0>>, <<"file", 0>>, <<"token", 1>>, <<"token", 2>>, <<"token", 0>>, <<"delay", 1>>, <<"delay", 0>>}

VARIABLES plan, token, delay, count, hist, end
vars == <<plan, token, delay, count, hist, end>>

Init == /\ IF Traced THEN \E i \in DOMAIN Log : plan = Log[i] ELSE plan = <<>>
        /\ token = 0 /\ delay = 0 /\ count = 0 /\ hist = <<>> /\ end = FALSE
Next1 == IF Traced THEN (IF Len(hist) < Len(plan) THEN {plan[Len(hist) + 1]} ELSE {})
         ELSE IF Len(hist) < Depth THEN Acts ELSE {}
Configure(a) == /\ a[1] \in {"token", "delay"}
                /\ token' = (IF a[1] = "token" THEN a[2] ELSE token)
                /\ delay' = (IF a[1] = "delay" THEN a[2] ELSE delay)
                /\ hist' = Append(hist, [a |-> a, token |-> 0, wait |-> FALSE])
                /\ UNCHANGED count
Open(a) == /\ a[1] \in {"get", "head", "file"}
           /\ hist' = Append(hist, [a |-> a, token |-> (IF a[1] = "file" THEN 0 ELSE token),
                                    wait |-> (a[1] # "file" /\ delay # 0 /\ count > 0)])
           /\ count' = count + 1
           /\ UNCHANGED <<token, delay>>
Step == ~end /\ \E a \in Next1 : (Configure(a) \/ Open(a)) /\ UNCHANGED <<plan, end>>
Emit == /\ ~end /\ Len(hist) = (IF Traced THEN Len(plan) ELSE Depth) /\ end' = TRUE
        /\ PrintT(ToJson(hist)) /\ UNCHANGED <<plan, token, delay, count, hist>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Web(k) == hist[k].a[1] \in {"get", "head"}
\* the token in force: the last one configured
InForce(k) == LET s == {j \in 1..k : hist[j].a[1] = "token"} IN IF s = {} THEN 0 ELSE hist[CHOOSE j \in s : \A i \in s : i <= j].a[2]
Slow(k) == LET s == {j \in 1..k : hist[j].a[1] = "delay"} IN IF s = {} THEN FALSE ELSE hist[CHOOSE j \in s : \A i \in s : i <= j].a[2] # 0
Right == \A k \in DOMAIN hist : /\ (Web(k) => hist[k].token = InForce(k))
                                /\ (hist[k].wait <=> Web(k) /\ Slow(k) /\ \E j \in 1..k - 1 : hist[j].a[1] \in {"get", "head", "file"})
=============================================================================
