------------------------------- MODULE Mapper -------------------------------
(***************************************************************************)
(* Translation between source URIs and destination paths (M01), and the    *)
(* paths a mapping may lead to (S07).  Text is a sequence of one-character *)
(* strings; a mapping is a pair [s, d] of such texts.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS Family, Alphabet, PLen, SLen

Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)

Fail == <<"FAIL">>

RECURSIVE Strip(_)
Strip(p) == IF p # <<>> /\ p[Len(p)] = "/" THEN Strip(SubSeq(p, 1, Len(p) - 1)) ELSE p

\* the part of s after prefix p (stripped), or Fail
Rest(p, s) == LET n == Len(p)
                  r == IF Len(s) >= n THEN SubSeq(s, n + 1, Len(s)) ELSE Fail
              IN IF Len(s) < n \/ SubSeq(s, 1, n) # p THEN Fail
                 ELSE IF r = <<>> THEN <<"/">>
                 ELSE IF r[1] = "/" THEN r ELSE Fail
\* a ".." segment in a text that begins with "/"
Climbs(r) == \E i \in 1..Len(r) - 2 : /\ r[i] = "/" /\ r[i + 1] = "." /\ r[i + 2] = "."
                                      /\ (i + 2 = Len(r) \/ r[i + 3] = "/")

ToDst1(m, s) == LET r == Rest(m.s, s) IN IF r = Fail \/ Climbs(r) THEN Fail ELSE m.d \o r
ToSrc1(m, f) == LET r == Rest(m.d, f) IN IF r = Fail THEN Fail ELSE m.s \o r
FirstOf(rs) == LET ok == {i \in DOMAIN rs : rs[i] # Fail} IN IF ok = {} THEN Fail ELSE rs[Min(ok)]
ToDst(ms, s) == FirstOf([i \in DOMAIN ms |-> ToDst1(ms[i], s)])
ToSrc(ms, f) == FirstOf([i \in DOMAIN ms |-> ToSrc1(ms[i], f)])

(* Arguments: texts possibly with "=".  The form with exactly two texts    *)
(* without "=" is one mapping; one text without "=" is derived.            *)
Eqs(a) == {i \in DOMAIN a : a[i] = "="}
Map1(a) == LET i == CHOOSE i \in Eqs(a) : TRUE
           IN [s |-> Strip(SubSeq(a, 1, i - 1)), d |-> Strip(SubSeq(a, i + 1, Len(a)))]
Parsed(args) ==
    IF Len(args) = 2 /\ Eqs(args[1]) = {} /\ Eqs(args[2]) = {}
    THEN [ok |-> TRUE, maps |-> <<[s |-> Strip(args[1]), d |-> Strip(args[2])]>>]
    ELSE IF \E i \in DOMAIN args : Cardinality(Eqs(args[i])) # 1 THEN [ok |-> FALSE, maps |-> <<>>]
    ELSE LET ms == [i \in DOMAIN args |-> Map1(args[i])]
         IN IF \E i, j \in DOMAIN ms : i # j /\ (ms[i].s = ms[j].s \/ ms[i].d = ms[j].d)
            THEN [ok |-> FALSE, maps |-> <<>>] ELSE [ok |-> TRUE, maps |-> ms]

---------------------------------------------------------------------------
VARIABLES in, done
Texts(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
StrSet == SetToSeq(Texts(SLen))

Q(i) == <<"Q", "1", "3", "5">>[i]
Cases(z) ==
    CASE Family = "translate" -> {[maps |-> ps, strs |-> <<>>] : ps \in UNION {[1..k -> Texts(PLen)] : k \in 1..2}}
      [] Family = "parse" -> {[args |-> as, strs |-> <<>>] : as \in UNION {[1..k -> Texts(PLen)] : k \in 1..2}}

\* translation: the same prefixes once as sources, once as destinations
Fwd(ps) == [i \in DOMAIN ps |-> [s |-> Strip(ps[i]), d |-> <<Q(i)>>]]
Bwd(ps) == [i \in DOMAIN ps |-> [s |-> <<Q(i)>>, d |-> Strip(ps[i])]]
Dup(ps) == \E i, j \in DOMAIN ps : i # j /\ Strip(ps[i]) = Strip(ps[j])
Strs(c) == IF c.strs = <<>> THEN StrSet ELSE c.strs
Out(c) == IF "args" \in DOMAIN c THEN Parsed(c.args)
          ELSE IF Dup(c.maps) THEN [dup |-> TRUE, strs |-> <<>>, dst |-> <<>>, src |-> <<>>]
          ELSE [dup |-> FALSE, strs |-> Strs(c),
                dst |-> [k \in DOMAIN Strs(c) |-> ToDst(Fwd(c.maps), Strs(c)[k])],
                src |-> [k \in DOMAIN Strs(c) |-> ToSrc(Bwd(c.maps), Strs(c)[k])]]
Init == /\ done = FALSE
        /\ IF Traced THEN \E i \in DOMAIN Log : in = Log[i] ELSE in \in Cases(0)
Next == ~done /\ done' = TRUE /\ UNCHANGED in /\ PrintT(ToJson([in |-> in, out |-> Out(in)]))
Spec == Init /\ [][Next]_<<in, done>>

\* with one mapping, forth and back is the identity (a bare prefix gains its slash)
RoundTrip == "maps" \in DOMAIN in /\ Len(in.maps) = 1 =>
    \A k \in DOMAIN Strs(in) :
        LET s == Strs(in)[k]
            m == <<[s |-> Strip(in.maps[1]), d |-> <<"Q">>]>>
            f == ToDst(m, s)
        IN f # Fail => ToSrc(m, f) = (IF s = m[1].s THEN s \o <<"/">> ELSE s)
\* nothing climbs out of the destination
Inside == "maps" \in DOMAIN in =>
    \A k \in DOMAIN Strs(in) :
        LET f == ToDst(Fwd(in.maps), Strs(in)[k]) IN f # Fail => ~Climbs(SubSeq(f, 2, Len(f)))
Slashes == "maps" \in DOMAIN in =>
    \A k \in DOMAIN Strs(in) :
        ToDst(Fwd([i \in DOMAIN in.maps |-> in.maps[i] \o <<"/">>]), Strs(in)[k]) = ToDst(Fwd(in.maps), Strs(in)[k])
=============================================================================
