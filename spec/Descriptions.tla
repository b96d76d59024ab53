---------------------------- MODULE Descriptions ----------------------------
(***************************************************************************)
(* Links and metadata of one description, of a resource (Kind "resource")  *)
(* or of a list as a whole (Kind "list"), as a state machine.              *)
(*   links  sequence of [r, h, a]: relation, target, attributes (two, 0 if *)
(*          absent); relations 1..4 are describedby, up, index, contents   *)
(*   time   six times of a resource (modification, change, at, completed,  *)
(*          from, until); the last four also of a list; -1 if absent.      *)
(*          Value 9 stands for text that is not a datetime.                *)
(*   dig    digests (MD5, SHA-1, SHA-256), 0 if absent                     *)
(*   chg    change type, 0 if none; 4 stands for anything else             *)
(*   cap    capability, 0 if none; 9 the one of the kind of list           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Kind, Rels, Hrefs, Depth

VARIABLES links, time, dig, chg, cap, hist
vars == <<links, time, dig, chg, cap, hist>>

None2 == <<0, 0>>
First(ls, r) == LET s == {i \in DOMAIN ls : ls[i].r = r} IN
                IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
Merge(a, b) == [k \in 1..2 |-> IF b[k] # 0 THEN b[k] ELSE a[k]]

Init == /\ links = <<>> /\ time = [f \in 1..6 |-> -1] /\ dig = <<0, 0, 0>>
        /\ chg = 0 /\ cap = 0 /\ hist = <<>>

\* what was done, whether it was accepted, and the state that follows
Log(op, x, ok) == hist' = Append(hist, [op |-> op, x |-> x, ok |-> ok, links |-> links', time |-> time',
                                        dig |-> dig', chg |-> chg', cap |-> cap'])

SetTo(ls, r, h, a) ==
    IF First(ls, r) = 0 THEN Append(ls, [r |-> r, h |-> h, a |-> a])
    ELSE [ls EXCEPT ![First(ls, r)] = [r |-> r, h |-> h, a |-> Merge(@.a, a)]]

Set(r, h, a) == /\ links' = SetTo(links, r, h, a) /\ UNCHANGED <<time, dig, chg, cap>>
                /\ Log("set", <<r, h, a[1], a[2]>>, TRUE)
AddLink(r, h, a) == /\ Kind = "resource"
                    /\ links' = Append(links, [r |-> r, h |-> h, a |-> a]) /\ UNCHANGED <<time, dig, chg, cap>>
                    /\ Log("add", <<r, h, a[1], a[2]>>, TRUE)
\* setting a property; the one for contents also says that the target is XML (attribute value 7)
Named(r, h) == /\ r \in 1..(IF Kind = "resource" THEN 4 ELSE 3)
               /\ links' = SetTo(links, r, h, IF r = 4 THEN <<7, 0>> ELSE None2) /\ UNCHANGED <<time, dig, chg, cap>>
               /\ Log("named", <<r, h>>, TRUE)
\* resources check times, lists take any text
Time(f, v) == LET ok == Kind = "list" \/ v # 9 IN
              /\ (Kind = "list" => f > 2)
              /\ time' = IF ok THEN [time EXCEPT ![f] = v] ELSE time
              /\ UNCHANGED <<links, dig, chg, cap>> /\ Log("time", <<f, v>>, ok)
\* text with several digests: sequence of [k, v], kinds 4 and 5 unknown
Known(s, k) == LET i == {j \in DOMAIN s : s[j][1] = k} IN IF i = {} THEN 0 ELSE s[CHOOSE j \in i : \A m \in i : j <= m][2]
Digests(s) == /\ Kind = "resource"
              /\ dig' = [k \in 1..3 |-> Known(s, k)]
              /\ UNCHANGED <<links, time, chg, cap>>
              /\ Log("dig", s, (\A j \in DOMAIN s : s[j][1] < 4) /\ (\A i, j \in DOMAIN s : s[i][1] = s[j][1] => i = j))
Change(v) == /\ Kind = "resource" /\ chg' = IF v = 4 THEN chg ELSE v
             /\ UNCHANGED <<links, time, dig, cap>> /\ Log("chg", <<v>>, v # 4)
Capability(v) == /\ cap' = v /\ UNCHANGED <<links, time, dig, chg>> /\ Log("cap", <<v>>, TRUE)
Default == /\ Kind = "list" /\ cap' = (IF cap = 0 THEN 9 ELSE cap) /\ UNCHANGED <<links, time, dig, chg>> /\ Log("default", <<>>, TRUE)

Atts == {None2, <<1, 0>>, <<0, 2>>, <<2, 1>>}
\* (guarded so that simulation chooses evenly between the kinds of step)
Guard == Len(hist) >= 0
Next == \/ Guard /\ \E r \in 1..Rels, h \in 1..Hrefs, a \in Atts : Set(r, h, a)
        \/ Guard /\ \E r \in 1..Rels, h \in 1..Hrefs, a \in Atts : AddLink(r, h, a)
        \/ Guard /\ \E r \in 1..4, h \in 1..Hrefs : Named(r, h)
        \/ Guard /\ \E f \in 1..6, v \in {-1, 0, 1, 2, 9} : Time(f, v)
        \/ Depth < 5 /\ \E k, l \in {1, 2, 4}, v \in 1..2 : Digests(<<<<k, v>>, <<l, 1>>>>)
        \/ Guard /\ Digests(<<>>)
        \/ Depth >= 5 /\ \E k, l \in 1..5, v, w \in 1..2 : Digests(<<<<k, v>>>>) \/ Digests(<<<<k, v>>, <<l, w>>>>)
        \/ Depth >= 5 /\ \E k, l, m \in 1..4, v \in 1..2 : Digests(<<<<k, v>>, <<l, 1>>, <<m, v>>>>)
        \/ Guard /\ \E v \in 0..4 : Change(v)
        \/ Guard /\ \E v \in 1..2 : Capability(v)
        \/ Guard /\ Default
Spec == Init /\ [][Next]_vars

EmitHist == Len(hist') = Depth => PrintT(ToJson([kind |-> Kind, steps |-> hist']))
Stop == Len(hist) < Depth

\* what was set is what is read; only the relation concerned changes; nothing is lost
ReadBack == hist # <<>> =>
    LET s == hist[Len(hist)] IN
    /\ s.op \in {"set", "named"} => links[First(links, s.x[1])].h = s.x[2]
    /\ s.op = "time" /\ s.ok => time[s.x[1]] = s.x[2]
    /\ s.op = "chg" /\ s.ok => chg = s.x[1]
Grows == [][ /\ Len(links') \in {Len(links), Len(links) + 1}
             /\ \A i \in DOMAIN links : links'[i].r = links[i].r
             /\ Cardinality({i \in DOMAIN links : links'[i] # links[i]}) <= 1 ]_vars
Types == /\ chg \in 0..3 /\ (Kind = "resource" => \A f \in 1..6 : time[f] # 9)
         /\ Kind = "list" => First(links, 0) = 0 /\ \A i, j \in DOMAIN links : links[i].r = links[j].r => i = j
=============================================================================
