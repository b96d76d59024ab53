------------------------------ MODULE Authority -----------------------------
(***************************************************************************)
(* Authority of a list over the resources it mentions (S08).               *)
(* A location is [scheme, host (labels, leftmost first), port, dir (path   *)
(* segments without the last), file].                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Family
Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)

Suffix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, Len(q) - Len(p) + 1, Len(q)) = p
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

HasAuthority(m, u, strict) ==
    /\ m.scheme = u.scheme /\ m.port = u.port
    /\ (m.host = u.host \/ (m.host # <<>> /\ Suffix(m.host, u.host)))
    /\ (strict => Prefix(m.dir, u.dir))

(* A run.  base: location of the default lists (directory of the first     *)
(* mapping); rl: explicit Resource List location or None; cl: explicit     *)
(* Change List location or None.                                           *)
None == [scheme |-> "none", host |-> <<>>, port |-> 0, dir |-> <<>>, file |-> ""]
RL(c) == IF c.rl = None THEN [c.base EXCEPT !.file = "resourcelist.xml"] ELSE c.rl
CL(c) == IF c.cl = None THEN [c.base EXCEPT !.file = "changelist.xml"] ELSE c.cl
Over(c, u) == IF c.op = "baseline" THEN HasAuthority(RL(c), u, c.strict)
              ELSE \/ HasAuthority(CL(c), u, c.strict)
                   \/ c.cl = None /\ HasAuthority(RL(c), u, c.strict)
Refused(c) == ~c.noauth /\ \E i \in DOMAIN c.uris : ~Over(c, c.uris[i])

(* A list split into parts, read by a reader that checks authority when    *)
(* check is set: a part the index surely has no authority over is neither  *)
(* asked for nor used; when it has authority over all, they are all read.  *)
Foreign(c) == {i \in DOMAIN c.parts : ~HasAuthority(c.index, c.parts[i], FALSE)}
IndexRefused(c) == c.check /\ Foreign(c) # {}
IndexRead(c) == ~c.check \/ \A i \in DOMAIN c.parts : HasAuthority(c.index, c.parts[i], TRUE)

---------------------------------------------------------------------------
VARIABLES in, done
L(s, h, p, d, f) == [scheme |-> s, host |-> h, port |-> p, dir |-> d, file |-> f]
Hosts == {<<"h", "org">>, <<"s", "h", "org">>, <<"t", "s", "h", "org">>, <<"xh", "org">>, <<"org">>, <<"h", "org", "uk">>, <<"x", "net">>}
Dirs == {<<>>, <<"a">>, <<"a", "b">>, <<"ab">>, <<"b">>, <<"b", "a">>, <<"a", "b", "c">>}
Locs(f) == {L(s, h, p, d, f) : s \in {"http", "https"}, h \in Hosts, p \in {0, 8080}, d \in Dirs}
           \cup {L("", <<>>, 0, d, f) : d \in Dirs}
Few(f) == {L("http", h, p, d, f) : h \in {<<"h", "org">>, <<"s", "h", "org">>, <<"org">>, <<"xh", "org">>}, p \in {0, 8080}, d \in {<<>>, <<"a">>, <<"ab">>, <<"a", "b">>}}
At(h, d, f) == L("http", h, 0, d, f)
Lists(f) == {None, At(<<"h", "org">>, <<"a">>, f), At(<<"h", "org">>, <<"b">>, f), At(<<"s", "h", "org">>, <<>>, f), At(<<"x", "net">>, <<"a">>, f)}
PairCases(z) == {[m |-> m, u |-> u, strict |-> s] : m \in Locs("l.xml"), u \in Locs("r"), s \in BOOLEAN}
RunCases(z) == {[op |-> op, strict |-> s, noauth |-> n, base |-> b, rl |-> r, cl |-> c, uris |-> <<u>>] :
                    op \in {"baseline", "incremental"}, s \in BOOLEAN, n \in BOOLEAN,
                    b \in {At(<<"h", "org">>, <<"a">>, ""), At(<<"s", "h", "org">>, <<>>, "")},
                    r \in Lists("list.xml"), c \in Lists("changes.xml"), u \in Few("r")}
IndexCases(z) == {[index |-> x, parts |-> <<u>>, check |-> b] : x \in Few("index.xml"), u \in Few("part.xml") \cup {L("https", <<"h", "org">>, 0, <<"a">>, "part.xml")}, b \in BOOLEAN}
Cases(z) == IF Family = "pair" THEN PairCases(0) ELSE IF Family = "index" THEN IndexCases(0) ELSE {c \in RunCases(0) : c.op = "baseline" => c.cl = None}
Out(c) == IF "m" \in DOMAIN c THEN [ok |-> HasAuthority(c.m, c.u, c.strict)]
          ELSE IF "parts" \in DOMAIN c THEN [refused |-> IndexRefused(c), read |-> IndexRead(c), foreign |-> SetToSortSeq(Foreign(c), <)]
          ELSE [refused |-> Refused(c)]
Init == /\ done = FALSE
        /\ IF Traced THEN \E i \in DOMAIN Log : in = Log[i] ELSE in \in Cases(0)
Next == ~done /\ done' = TRUE /\ UNCHANGED in /\ PrintT(ToJson([in |-> in, out |-> Out(in)]))
Spec == Init /\ [][Next]_<<in, done>>

StrictNarrows == "m" \in DOMAIN in => (HasAuthority(in.m, in.u, TRUE) => HasAuthority(in.m, in.u, FALSE))
RefusedOrRead == "parts" \in DOMAIN in => ~(IndexRefused(in) /\ IndexRead(in))
OverItself == "m" \in DOMAIN in => HasAuthority(in.m, in.m, TRUE)
=============================================================================
