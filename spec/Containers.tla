----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* Containers of resource descriptions as a state machine.                 *)
(* Kind: "dict" (by URI), "ordered" (insertion order), "cap" (capability   *)
(* order), "change" (change list), "plain" (keeps whatever is added, in    *)
(* the order of addition).  An entry is [u, x]: URI number and a   *)
(* tag that tells entries apart; for "cap" the capability number is        *)
(* derived from u by CapOf, capabilities above 8 are unknown ones; for     *)
(* "change" x = 0 stands for an entry without change type.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Kind, N, Depth, Iters

VARIABLES entries, its, hist
vars == <<entries, its, hist>>

CapOf(u) == <<3, 1, 8, 1, 9, 2>>[((u - 1) % 6) + 1]

Has(es, u) == \E i \in DOMAIN es : es[i].u = u
IndexOf(es, u) == CHOOSE i \in DOMAIN es : es[i].u = u

\* one addition: <<accepted, new entries>>
Add1(es, e, replace) ==
    CASE Kind = "change" -> IF e.x = 0 THEN <<FALSE, es>> ELSE <<TRUE, Append(es, e)>>
      [] Kind = "plain" -> <<TRUE, Append(es, e)>>
      [] OTHER -> IF ~Has(es, e.u) THEN <<TRUE, Append(es, e)>>
                  ELSE IF replace THEN <<TRUE, [es EXCEPT ![IndexOf(es, e.u)] = e]>>
                  ELSE <<FALSE, es>>
\* several: one after another until one is refused
AddAll(es, new, replace) ==
    FoldLeft(LAMBDA r, e : IF ~r[1] THEN r ELSE Add1(r[2], e, replace), <<TRUE, es>>, new)

Less(a, b) == CASE Kind = "dict" -> a.u < b.u
                [] Kind = "cap"  -> CapOf(a.u) < CapOf(b.u) \/ (CapOf(a.u) = CapOf(b.u) /\ a.u < b.u)
                [] OTHER -> FALSE
\* the documented order of iteration
Order(es) == IF Kind \in {"ordered", "change", "plain"} THEN es ELSE SetToSortSeq(ToSet(es), Less)

Tags == IF Kind = "change" THEN 0..2 ELSE {1}
\* (tags are made distinct by the step number)
Tag(x) == IF x = 0 THEN 0 ELSE x * 100 + Len(hist)

Init == entries = <<>> /\ its = [k \in 1..Iters |-> <<>>] /\ hist = <<>>

Log(rec) == hist' = Append(hist, rec)

Add(u, x, replace) ==
    LET r == Add1(entries, [u |-> u, x |-> Tag(x)], replace) IN
    /\ (replace => Kind \notin {"change", "plain"})
    /\ entries' = r[2] /\ its' = [k \in 1..Iters |-> <<>>]
    /\ Log([op |-> "add", es |-> <<[u |-> u, x |-> Tag(x)]>>, replace |-> replace, ok |-> r[1],
            all |-> Order(r[2]), y |-> 0, it |-> 0])
AddSome(u, v, x, w, replace) ==
    LET new == <<[u |-> u, x |-> Tag(x)], [u |-> v, x |-> IF w = 0 THEN 0 ELSE Tag(w) + 1000]>>
        r == AddAll(entries, new, replace) IN
    /\ (replace => Kind \notin {"change", "plain"})
    /\ entries' = r[2] /\ its' = [k \in 1..Iters |-> <<>>]
    /\ Log([op |-> "addall", es |-> new, replace |-> replace, ok |-> r[1], all |-> Order(r[2]), y |-> 0, it |-> 0])
\* an entry the container has is added once more, alone or ahead of a new one
Again(u, v, alone, replace) ==
    LET here == entries[IndexOf(entries, u)]
        new == IF alone THEN <<here>> ELSE <<here, [u |-> v, x |-> Tag(1)]>>
        r == AddAll(entries, new, replace) IN
    /\ Has(entries, u)
    /\ (replace => Kind \notin {"change", "plain"})
    /\ entries' = r[2] /\ its' = [k \in 1..Iters |-> <<>>]
    /\ Log([op |-> IF alone THEN "add" ELSE "addall", es |-> new, replace |-> replace, ok |-> r[1],
            all |-> Order(r[2]), y |-> 0, it |-> 0])
\* iteration; an addition ends all iterations in progress
Start(k) == /\ its[k] = <<>>
            /\ its' = [its EXCEPT ![k] = <<[u |-> -1, x |-> 0]>> \o Order(entries)]
            /\ UNCHANGED entries
            /\ Log([op |-> "iter", es |-> <<>>, replace |-> FALSE, ok |-> TRUE, all |-> Order(entries), y |-> 0, it |-> k])
NextOf(k) == /\ its[k] # <<>>
             /\ its' = [its EXCEPT ![k] = IF Len(@) = 1 THEN <<>> ELSE <<@[1]>> \o SubSeq(@, 3, Len(@))]
             /\ UNCHANGED entries
             /\ Log([op |-> "next", es |-> <<>>, replace |-> FALSE, ok |-> Len(its[k]) > 1, all |-> Order(entries),
                     y |-> IF Len(its[k]) > 1 THEN its[k][2].x ELSE 0, it |-> k])
\* lookup: by URI, or by position in a list that keeps the order of addition;
\* and, in a capability list, by capability
ByPos == Kind \in {"change", "plain"}
Found(u) == IF ByPos THEN IF u <= Len(entries) THEN <<entries[u].x>> ELSE <<>>
            ELSE IF Has(entries, u) THEN <<entries[IndexOf(entries, u)].x>> ELSE <<>>
Get(u) == /\ UNCHANGED <<entries, its>>
          /\ Log([op |-> "get", es |-> <<>>, replace |-> FALSE, ok |-> Found(u) # <<>>, all |-> Order(entries),
                  y |-> IF Found(u) # <<>> THEN Found(u)[1] ELSE 0, it |-> u])
Info(c) == LET o == Order(entries) l == SelectSeq(o, LAMBDA e : CapOf(e.u) = c) IN
           /\ Kind = "cap" /\ UNCHANGED <<entries, its>>
           /\ Log([op |-> "info", es |-> <<>>, replace |-> FALSE, ok |-> l # <<>>, all |-> o,
                   y |-> IF l # <<>> THEN l[1].x ELSE 0, it |-> c])
\* another container made with the contents of this one; iterations in progress go on
Wrap == /\ UNCHANGED <<entries, its>>
        /\ Log([op |-> "wrap", es |-> <<>>, replace |-> FALSE, ok |-> TRUE, all |-> Order(entries), y |-> 0, it |-> 0])
\* (in simulated histories mostly additions first, then mostly iterations)
MayAdd == Len(hist) < Depth \div 2 \/ (Len(hist) % 5 = 0)
Next == \/ MayAdd /\ \E u \in 1..N, x \in Tags, r \in BOOLEAN : Add(u, x, r)
        \/ MayAdd /\ \E u \in 1..N, x, w \in Tags, r \in BOOLEAN : AddSome(u, ((u + Len(hist)) % N) + 1, x, w, r)
        \/ MayAdd /\ \E u \in 1..N, r, alone \in BOOLEAN : Again(u, (u % N) + 1, alone, r)
        \/ \E k \in 1..Iters : Start(k) \/ NextOf(k) \/ (its[k] # <<>> /\ NextOf(k))
        \/ \E u \in 1..N : Get(u)
        \/ \E c \in {1, 3, 8, 9} : Len(hist) % 3 = 0 /\ Info(c)
        \/ Len(hist) % 4 = 1 /\ Wrap
Spec == Init /\ [][Next]_vars

EmitHist == Len(hist') = Depth => PrintT(ToJson([kind |-> Kind, steps |-> hist']))
Stop == Len(hist) < Depth

Unique == ~ByPos => \A i, j \in DOMAIN entries : entries[i].u = entries[j].u => i = j
Typed == Kind = "change" => \A i \in DOMAIN entries : entries[i].x # 0
Complete == /\ ToSet(Order(entries)) = ToSet(entries) /\ Len(Order(entries)) = Len(entries)
            /\ Kind = "dict" => \A i \in 1..Len(entries) - 1 : Order(entries)[i].u < Order(entries)[i + 1].u
=============================================================================
