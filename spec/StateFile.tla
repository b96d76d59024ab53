----------------------------- MODULE StateFile -----------------------------
(***************************************************************************)
(* The stored synchronization state (C02): a map from site names, compared *)
(* after lower-casing and with every non-word character taken as "_", to   *)
(* times.  A history of recordings and removals; the last operation may be *)
(* interrupted (process death), then it has happened completely or not at  *)
(* all.  After every operation all sites are read.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Depth, Times
Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)

Lower(ch) == CASE ch = "A" -> "a" [] ch = "B" -> "b" [] OTHER -> ch
Word(ch) == IF ch \in {"/", ".", "_", "%"} THEN "_" ELSE Lower(ch)
Norm(n) == [i \in DOMAIN n |-> Word(n[i])]

Pools == { << <<"a">>, <<"A">>, <<"b">> >>, << <<"a", "/">>, <<"a", "_">>, <<"a">> >>, << <<"a", "/", "b">>, <<"a", ".", "B">>, <<"a", "b">> >>,
           << <<"/">>, <<"%">>, <<"a">> >>, << <<"a", "%", "b">>, <<"a", "%">>, <<"%", "b">> >>, << <<"1">>, <<"1", "/">>, <<"/", "1">> >>,
           << <<"a", "/">>, <<"a", "/", "/">>, <<"a", "/", "a">> >> }

VARIABLES names, plan, db, hist, end
vars == <<names, plan, db, hist, end>>

Read(d) == [i \in DOMAIN names |-> IF Norm(names[i]) \in DOMAIN d THEN d[Norm(names[i])] ELSE 0]
Put(d, n, t) == [k \in DOMAIN d \cup {Norm(n)} |-> IF k = Norm(n) THEN t ELSE d[k]]
Drop(d, n) == [k \in DOMAIN d \ {Norm(n)} |-> d[k]]
Do(d, o) == IF o.k = "del" THEN Drop(d, names[o.i]) ELSE Put(d, names[o.i], o.t)

Init == /\ IF Traced THEN \E i \in DOMAIN Log : names = Log[i].names /\ plan = Log[i].plan ELSE names \in Pools /\ plan = <<>>
        /\ db = <<>> /\ hist = <<>> /\ end = FALSE
Ops == IF Traced THEN (IF Len(hist) < Len(plan) THEN {plan[Len(hist) + 1]} ELSE {})
       ELSE IF Len(hist) >= Depth THEN {} ELSE
            {[k |-> "set", i |-> i, t |-> t] : i \in DOMAIN names, t \in Times} \cup {[k |-> "del", i |-> i, t |-> 0] : i \in DOMAIN names}
Op == /\ ~end
      /\ \E o \in Ops : /\ db' = Do(db, o)
                        /\ hist' = Append(hist, [o |-> o, was |-> Read(db), now |-> Read(db')])
      /\ UNCHANGED <<names, plan, end>>
Emit == /\ ~end /\ Len(hist) = (IF Traced THEN Len(plan) ELSE Depth) /\ end' = TRUE
        /\ PrintT(ToJson([names |-> names, hist |-> hist]))
        /\ UNCHANGED <<names, plan, db, hist>>
Next == Op \/ Emit
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* an operation shows for its site and leaves every site of another name alone
Local == \A k \in DOMAIN hist : LET h == hist[k] IN
            /\ h.now[h.o.i] = h.o.t
            /\ \A j \in DOMAIN names : Norm(names[j]) # Norm(names[h.o.i]) => h.now[j] = h.was[j]
            /\ \A j \in DOMAIN names : Norm(names[j]) = Norm(names[h.o.i]) => h.now[j] = h.o.t
=============================================================================
