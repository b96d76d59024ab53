----------------------------- MODULE PathsTrace -----------------------------
(***************************************************************************)
(* Judges recorded runs of the real client over hostile listings (S07).    *)
(* Record: maps (texts [s, d], d absolute), uris (texts of the listed      *)
(* resources that are to be there), gone (texts listed as deleted),        *)
(* effects [k, p] (p: segments), made / lost (paths of files that are new  *)
(* or changed / missing afterwards), ended "ok" or "error", op.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
Log == ndJsonDeserialize(IOEnv.TRACE)
M == INSTANCE Mapper WITH Family <- "", Alphabet <- {}, PLen <- 0, SLen <- 0, in <- 0, done <- FALSE
VARIABLE i

\* segments of an absolute path text (none is ".."), as texts
RECURSIVE Split(_, _)
Split(t, cur) ==
    IF t = <<>> THEN IF cur \in {<<>>, <<".">>} THEN <<>> ELSE <<cur>>
    ELSE IF Head(t) = "/" THEN (IF cur \in {<<>>, <<".">>} THEN <<>> ELSE <<cur>>) \o Split(Tail(t), <<>>)
    ELSE Split(Tail(t), Append(cur, Head(t)))
Segs(t) == Split(t, <<>>)
Within(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q

Why(r) ==
    LET ms == [k \in DOMAIN r.maps |-> [s |-> M!Strip(r.maps[k].s), d |-> M!Strip(r.maps[k].d)]]
        roots == {Segs(ms[k].d) : k \in DOMAIN ms}
        dst(u) == M!ToDst(ms, u)
        targets == {Segs(dst(u)) : u \in {u \in ToSet(r.uris) : dst(u) # M!Fail}}
        doomed == {Segs(dst(u)) : u \in {u \in ToSet(r.gone) : dst(u) # M!Fail}}
        refused == \E u \in ToSet(r.uris) : dst(u) = M!Fail
        below(p) == \E q \in roots : Within(p, q)
    IN CASE \E k \in DOMAIN r.effects : LET e == r.effects[k] IN
                ~below(e.p) /\ ~(e.k \in {"mkdir", "utime"} /\ \E q \in roots : Within(q, e.p)) -> "effect outside the destination"
         [] \E k \in DOMAIN r.made : r.made[k] \notin targets -> "file written elsewhere than mapped"
         [] \E k \in DOMAIN r.lost : ~below(r.lost[k]) -> "file outside the destination gone"
         [] \E k \in DOMAIN r.lost : ~r.del -> "file removed without permission"
         [] r.op = "incremental" /\ \E k \in DOMAIN r.lost : r.lost[k] \notin doomed -> "file removed that was not listed as deleted"
         [] r.ended = "ok" /\ refused /\ r.must -> "resource that cannot be mapped not refused"
         [] OTHER -> ""
Init == i \in DOMAIN Log
Next == i > 0 /\ i' = 0 /\ PrintT(ToJson([i |-> Log[i].i, bad |-> Why(Log[i])]))
Spec == Init /\ [][Next]_i
=============================================================================
