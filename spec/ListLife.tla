------------------------------ MODULE ListLife ------------------------------
(***************************************************************************)
(* The life of a list that supports indexes: entries and a link are set,   *)
(* limits change, the list is written under several names, as one document *)
(* or as components with an index, and read back, again and again.         *)
(*   es     entries of the list: their contents (the i-th has the i-th URI) *)
(*   up     target of the up link, 0 if none                               *)
(*   limit  entries per document, 0 if none;  multi: several documents     *)
(*          may be written and read                                        *)
(*   disk   what is stored under each name: form "none", "single" or       *)
(*          "index", the contents of the document or of its components,    *)
(*          and the up link                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Files, MaxN, MaxLimit, Depth

VARIABLES es, up, limit, multi, disk, hist
vars == <<es, up, limit, multi, disk, hist>>

NoDoc == [form |-> "none", parts |-> <<>>, up |-> 0]
Init == /\ es = <<>> /\ up = 0 /\ limit = 0 /\ multi = TRUE
        /\ disk = [f \in 1..Files |-> NoDoc] /\ hist = <<>>

Log(op, x, ok) == hist' = Append(hist, [op |-> op, x |-> x, ok |-> ok, es |-> es', up |-> up', disk |-> disk'])

RECURSIVE Chunks(_, _)
Chunks(s, k) == IF Len(s) <= k THEN <<s>> ELSE <<SubSeq(s, 1, k)>> \o Chunks(SubSeq(s, k + 1, Len(s)), k)
TooLong == limit # 0 /\ Len(es) > limit

Add(v) == /\ Len(es) < MaxN /\ es' = Append(es, v) /\ UNCHANGED <<up, limit, multi, disk>> /\ Log("add", v, TRUE)
Clear == /\ es # <<>> /\ es' = <<>> /\ up' = 0 /\ UNCHANGED <<limit, multi, disk>> /\ Log("clear", 0, TRUE)
Link(h) == /\ up' = h /\ UNCHANGED <<es, limit, multi, disk>> /\ Log("link", h, TRUE)
Limit(m) == /\ m # limit /\ limit' = m /\ UNCHANGED <<es, up, multi, disk>> /\ Log("limit", m, TRUE)
Multi == /\ multi' = ~multi /\ UNCHANGED <<es, up, limit, disk>> /\ Log("multi", 0, TRUE)
\* a refused writing leaves everything as it was
Write(f) == /\ disk' = IF ~TooLong THEN [disk EXCEPT ![f] = [form |-> "single", parts |-> <<es>>, up |-> up]]
                       ELSE IF multi THEN [disk EXCEPT ![f] = [form |-> "index", parts |-> Chunks(es, limit), up |-> up]]
                       ELSE disk
            /\ UNCHANGED <<es, up, limit, multi>>
            /\ Log("write", f, ~TooLong \/ multi)
\* a new list takes the place of the present one
Load(f) == /\ disk[f].form # "none"
           /\ LET ok == disk[f].form = "single" \/ multi IN
              /\ es' = (IF ok THEN FlattenSeq(disk[f].parts) ELSE es)
              /\ up' = (IF ok THEN disk[f].up ELSE up)
              /\ UNCHANGED <<limit, multi, disk>>
              /\ Log("load", f, ok)

Guard == Len(hist) >= 0
Next == \/ Guard /\ \E v \in 1..2 : Add(v)
        \/ Guard /\ \E v \in 1..2 : Add(v)
        \/ Guard /\ \E v \in 1..2 : Add(v)
        \/ Guard /\ Clear
        \/ Guard /\ \E h \in 1..2 : Link(h)
        \/ Guard /\ \E m \in 0..MaxLimit : Limit(m)
        \/ Guard /\ Multi
        \/ Guard /\ \E f \in 1..Files : Write(f)
        \/ Guard /\ \E f \in 1..Files : Write(f)
        \/ Guard /\ \E f \in 1..Files : Load(f)
Spec == Init /\ [][Next]_vars

EmitHist == Len(hist') = Depth => PrintT(ToJson([steps |-> hist']))
Stop == Len(hist) < Depth

\* what is stored is complete, whatever it was stored as
Stored == \A f \in 1..Files : LET d == disk[f] IN
    /\ d.form = "single" => Len(d.parts) = 1
    /\ d.form = "index" => Len(d.parts) > 1 /\ \A i \in DOMAIN d.parts : d.parts[i] # <<>>
\* storing leaves the list alone, loading leaves what is stored alone, and each gives the other
Faithful == [][ LET s == hist'[Len(hist')] IN
    /\ s.op \in {"write", "limit", "multi"} => es' = es /\ up' = up
    /\ s.op # "write" => disk' = disk
    /\ (s.op = "write" /\ s.ok) => FlattenSeq(disk'[s.x].parts) = es /\ disk'[s.x].up = up
    /\ s.op = "write" => \A f \in 1..Files : f # s.x => disk'[f] = disk[f] ]_vars
=============================================================================
