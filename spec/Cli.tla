------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The command line (C05): arguments that are split into parts, and what   *)
(* the options make the build and sync commands do.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxLen
Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)
Rng(s) == {s[i] : i \in DOMAIN s}
B(x) == IF x THEN 1 ELSE 0

---------------------------------------------------------------------------
\* Arguments.  Texts are sequences of characters.
RECURSIVE Split(_, _)
Split(s, c) ==
    LET p == {i \in DOMAIN s : s[i] = c} IN
    IF p = {} THEN <<s>>
    ELSE LET k == CHOOSE i \in p : \A j \in p : i <= j IN <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)), c)
\* name=value with both present (for links) or exactly one "=" (for capabilities)
Pair(t) == LET q == Split(t, "=") IN
    IF Len(q) # 2 THEN [ok |-> FALSE, k |-> <<>>, v |-> <<>>] ELSE [ok |-> TRUE, k |-> q[1], v |-> q[2]]
Refusal == [ok |-> FALSE, rel |-> <<>>, href |-> <<>>, pairs |-> <<>>]
Link(s) ==
    LET t == Split(s, ",")
        ps == [i \in 1..(Len(t) - 2) |-> Pair(t[i + 2])]
    IN IF Len(t) < 2 THEN Refusal
       ELSE IF t[2] = <<>> \/ \E i \in DOMAIN ps : ~ps[i].ok \/ ps[i].k = <<>> \/ ps[i].v = <<>> THEN Refusal
       ELSE [ok |-> TRUE, rel |-> t[1], href |-> t[2], pairs |-> [i \in DOMAIN ps |-> <<ps[i].k, ps[i].v>>]]
Capabilities(s) ==
    LET t == Split(s, ",")  ps == [i \in DOMAIN t |-> Pair(t[i])] IN
    IF \E i \in DOMAIN ps : ~ps[i].ok THEN Refusal
    ELSE [ok |-> TRUE, rel |-> <<>>, href |-> <<>>, pairs |-> [i \in DOMAIN ps |-> <<ps[i].k, ps[i].v>>]]
Lists(s) == Split(s, ",")

---------------------------------------------------------------------------
\* The build command: names with versions.
Ref == {<<"f1", 1>>, <<"f2", 1>>, <<"gone", 1>>}
New == {<<"f1", 1>>, <<"f2", 2>>, <<"new", 1>>}
\* f2 lies in another directory than f1 and x3; the exclusion is of x3
Disk(c) == {r \in {<<"f1", 1>>, <<"f2", 2>>, <<"x3", 1>>} :
               ~(c.exclude /\ r[1] = "x3") /\ ~(c.paths /\ r[1] = "f2")}
Names(s) == {r[1] : r \in s}
Changes(old, new) ==
    {<<n, "created">> : n \in Names(new) \ Names(old)} \cup {<<n, "deleted">> : n \in Names(old) \ Names(new)}
    \cup {<<n, "updated">> : n \in {m \in Names(old) \cap Names(new) : \E v \in {1, 2} : (<<m, v>> \in old) # (<<m, v>> \in new)}}
FromDisk(c) == c.mode \in {"resourcelist", "changelist", "resourcedump"}
Entries(c) ==
    CASE c.mode \in {"resourcelist", "resourcedump"} -> {<<n, "">> : n \in Names(Disk(c))}
      [] c.mode = "changelist" -> Changes(Ref, Disk(c))
      [] c.mode = "newreference" -> Changes(Ref, New)
      [] c.mode = "empty" -> {}
      [] OTHER -> {<<c.names[i], "">> : i \in DOMAIN c.names}
Digests(c) == Rng(c.hash) \cup (IF c.checksum THEN {"md5"} ELSE {})
IsList(c) == c.mode \in {"resourcelist", "changelist", "newreference", "empty"}
Parts(c) == IF ~IsList(c) \/ c.max = 0 \/ Cardinality(Entries(c)) <= c.max THEN 1
            ELSE (Cardinality(Entries(c)) + c.max - 1) \div c.max
Refused(c) ==
    \/ "bad" \in Rng(c.links)
    \/ FromDisk(c) /\ ~c.map
    \/ c.mode = "noreference"
    \/ Parts(c) > 1 /\ (~c.outfile \/ c.single \/ ~c.map)
Kind(c) == CASE c.mode \in {"changelist", "newreference", "empty"} -> "changelist"
             [] c.mode = "capabilities" -> "capabilitylist" [] c.mode = "description" -> "description"
             [] c.mode = "resourcedump" -> "resourcedump-manifest" [] OTHER -> c.mode
Links(c) ==
    (IF c.describedby THEN <<"describedby">> ELSE <<>>)
    \o (IF c.sdlink /\ c.mode = "capabilities" THEN <<"up-sd">> ELSE <<>>)
    \o (IF c.cllink /\ c.mode \notin {"capabilities", "description"} THEN <<"up-cl">> ELSE <<>>)
    \o [i \in DOMAIN c.links |-> c.links[i]]
Build(c) == [refused |-> Refused(c), kind |-> Kind(c), entries |-> Entries(c), links |-> Links(c), parts |-> Parts(c), digests |-> Digests(c)]

---------------------------------------------------------------------------
\* The sync command.  The source lists: "new" (not at the destination), "upd" (other size), "dig" (differs in
\* content only), "same"; perhaps "other" (on another host) or "beside" (same host, other directory); one that
\* does not exist ("bad"); and "slow", which answers at the (k+1)-th attempt.  "extra" is at the destination only.
\* In incremental mode the changes are: new at time 2, upd at 3, extra deleted at 4, and "early" at time 1.
Tries(c) == IF c.tries = 0 THEN 20 ELSE c.tries
Inc(c) == c.mode = "incremental"
Shows(c) == c.mode = "parse"   \* the document named is read and described, nothing else
Md5(c) == c.checksum \/ "md5" \in Rng(c.hash)
Denied(c) == ~c.noauth /\ ("other" \in Rng(c.more) \/ (c.strict /\ "beside" \in Rng(c.more)))
NoTime(c) == Inc(c) /\ c.from = 0
BadTime(c) == Inc(c) /\ c.from < 0
\* resources asked for, in a complete run
Wanted(c) == (IF Inc(c) THEN {"new", "upd"} \cup (IF c.from <= 1 THEN {"early"} ELSE {})
              ELSE {"new", "upd"} \cup (IF Md5(c) THEN {"dig"} ELSE {}))
             \cup Rng(c.more)
SlowFails(c) == "slow" \in Rng(c.more) /\ c.slow >= Tries(c)
Fails(c) == "bad" \in Rng(c.more) \/ SlowFails(c)
\* options that are refused before anything is done: a negative delay, several modes, no mode
Misused(c) == c.misuse # ""
Reads(c) == ~(NoTime(c) \/ BadTime(c) \/ Misused(c))
Acts(c) == Reads(c) /\ c.mode # "audit" /\ ~Shows(c) /\ ~Denied(c)
Sync(c) == [
    error |-> ~Reads(c) \/ (c.mode # "audit" /\ ~Shows(c) /\ (Denied(c) \/ (~c.dryrun /\ Fails(c) /\ ~c.ignore))),
    list |-> Reads(c),
    acts |-> Acts(c) /\ ~c.dryrun,
    \* everything is done unless a failure ends the run
    complete |-> Acts(c) /\ ~c.dryrun /\ (~Fails(c) \/ c.ignore),
    wanted |-> Wanted(c),
    got |-> Wanted(c) \ ({"bad"} \cup (IF SlowFails(c) THEN {"slow"} ELSE {})),
    attempts |-> IF c.slow + 1 < Tries(c) THEN c.slow + 1 ELSE Tries(c),
    deleted |-> c.delete,
    shown |-> 4 + Cardinality(Rng(c.more)),
    timeout |-> c.timeout]

---------------------------------------------------------------------------
VARIABLES in, done
Chars == {",", "=", "a", "b"}
Strings(n) == UNION {[1..k -> Chars] : k \in 0..n}
\* all of them up to a length, and longer ones that go on from a link without attributes
Arguments == Strings(MaxLen) \cup {<<"a", ",", "b", ",">> \o t : t \in Strings(MaxLen - 1)}
Out(c) == CASE c.what = "text" -> [link |-> Link(c.s), caps |-> Capabilities(c.s), lists |-> Lists(c.s)]
            [] c.what = "build" -> Build(c)
            [] OTHER -> Sync(c)
Init == /\ done = FALSE
        /\ IF Traced THEN \E i \in DOMAIN Log : in = Log[i] ELSE \E s \in Arguments : in = [what |-> "text", s |-> s]
Next == ~done /\ done' = TRUE /\ UNCHANGED in /\ PrintT(ToJson([in |-> in, out |-> Out(in)]))
Spec == Init /\ [][Next]_<<in, done>>

RECURSIVE Join(_, _)
Join(t, c) == IF Len(t) = 1 THEN t[1] ELSE t[1] \o <<c>> \o Join(Tail(t), c)
\* nothing is lost in splitting
Faithful == in.what = "text" =>
    /\ Join(Split(in.s, ","), ",") = in.s
    /\ Link(in.s).ok => LET l == Link(in.s) IN
          Join(<<l.rel, l.href>> \o [i \in DOMAIN l.pairs |-> l.pairs[i][1] \o <<"=">> \o l.pairs[i][2]], ",") = in.s
    /\ Capabilities(in.s).ok => LET l == Capabilities(in.s) IN
          Join([i \in DOMAIN l.pairs |-> l.pairs[i][1] \o <<"=">> \o l.pairs[i][2]], ",") = in.s
Harmless == in.what = "sync" => (in.mode \in {"audit", "parse"} \/ in.dryrun => ~Out(in).acts)
=============================================================================
