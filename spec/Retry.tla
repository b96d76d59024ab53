------------------------------- MODULE Retry -------------------------------
(***************************************************************************)
(* Downloads with retries (S11).  Each resource has a script of what its   *)
(* attempts meet: time-outs (while connecting "ct", waiting for the answer *)
(* "rt", within the body "bt"), success "ok", or another failure: "err"    *)
(* (an HTTP error), "rf" (refused), "rs" (reset), "tr" (truncated).  tries *)
(* is the configured number of attempts, ign whether failures are ignored. *)
(* Resources are taken in any order.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS MaxTries, Mate
Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)
T == {"ct", "rt", "bt"}
E == {"err", "rf", "rs", "tr"}

VARIABLES in, cur, left, made, got, end
vars == <<in, cur, left, made, got, end>>

Scripts(t) == UNION {{p \o <<f>> : p \in [1..k -> T], f \in {"ok"} \cup E} : k \in 0..t - 1} \cup [1..t -> T]
Few(t) == {<<"ok">>, <<"err">>, <<"tr">>} \cup (IF t = 1 THEN {<<"rt">>} ELSE {<<"rt", "ok">>, <<"ct", "rs">>})
Cases(z) == UNION {{[s |-> <<a>>, tries |-> t, ign |-> i] : a \in Scripts(t), i \in BOOLEAN} : t \in 1..MaxTries}
            \cup UNION {{[s |-> <<a, b>>, tries |-> t, ign |-> i] : a \in Scripts(t), b \in (IF Mate THEN Scripts(t) ELSE Few(t)), i \in BOOLEAN} : t \in 1..MaxTries - 1}

N == Len(in.s)
Init == /\ IF Traced THEN \E i \in DOMAIN Log : in = Log[i] ELSE in \in Cases(0)
        /\ cur = 0 /\ left = DOMAIN in.s
        /\ made = [i \in DOMAIN in.s |-> 0] /\ got = {} /\ end = ""
\* take a resource
Take == /\ end = "" /\ cur = 0
        /\ IF Traced THEN left # {} /\ cur' = Min(left) ELSE \E i \in left : cur' = i
        /\ left' = left \ {cur'} /\ UNCHANGED <<in, made, got, end>>
Meets == in.s[cur][made[cur] + 1]
Fail == IF in.ign THEN end' = end /\ cur' = 0 ELSE end' = "fatal" /\ cur' = 0
\* one attempt
Try == /\ end = "" /\ cur # 0
       /\ made' = [made EXCEPT ![cur] = @ + 1]
       /\ CASE Meets = "ok" -> got' = got \cup {cur} /\ cur' = 0 /\ end' = end
            [] Meets \in E -> got' = got /\ Fail
            [] Meets \in T /\ made[cur] + 1 < in.tries -> UNCHANGED <<cur, got, end>>
            [] OTHER -> got' = got /\ Fail
       /\ UNCHANGED <<in, left>>
Complete == end = "" /\ cur = 0 /\ left = {} /\ end' = "ok" /\ UNCHANGED <<in, cur, left, made, got>>
Emit == /\ end \in {"ok", "fatal"} /\ end' = end \o "."
        /\ PrintT(ToJson([in |-> in, out |-> [end |-> end, made |-> made, got |-> SetToSeq(got)]]))
        /\ UNCHANGED <<in, cur, left, made, got>>
Next == Take \/ Try \/ Complete \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Over == end \in {"ok", "fatal"}
\* never more attempts than configured; only time-outs are followed by another attempt
Bounded == \A i \in DOMAIN in.s : made[i] <= in.tries
OnlyTimeouts == \A i \in DOMAIN in.s : \A k \in 1..made[i] - 1 : in.s[i][k] \in T
\* attempts go on until success, other failure or the limit
Enough == Over => \A i \in DOMAIN in.s : made[i] > 0 => made[i] = in.tries \/ in.s[i][made[i]] \notin T
Truth == Over => /\ \A i \in DOMAIN in.s : i \in got <=> (made[i] > 0 /\ in.s[i][made[i]] = "ok")
                 /\ (end = "ok" /\ ~in.ign => got = DOMAIN in.s)
                 /\ (in.ign => end = "ok" /\ \A i \in DOMAIN in.s : made[i] > 0)
Ends == <>(end # "")
=============================================================================
