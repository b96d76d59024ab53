----------------------------- MODULE SitemapDoc -----------------------------
(***************************************************************************)
(* ResourceSync documents: what a document tree means (Parse) and which    *)
(* tree a list is written as (Write).                                      *)
(*                                                                         *)
(* A document is [root, want, cap, v10, els]:                              *)
(*   root  "urlset" "sitemapindex" or one that is no list of any kind:     *)
(*         "foreign" "nons" (no namespace) "broken" (not well-formed)      *)
(*         "entities" (declares entities)                                  *)
(*   want  "any" "index" "list": the kind of list expected                 *)
(*   cap   the capability expected or "none"                               *)
(*   v10   read according to version 1.0                                   *)
(*   els   top level elements [k, a, c]: k = "md" "ln" with attributes a,  *)
(*         "item" (the entry element of this root) with children c,        *)
(*         or anything else, which is ignored.                             *)
(* Children are [k, v, a]: "loc" "lastmod" with text v, "md" "ln" with a.  *)
(* Attributes are sequences of [n, v, h]; v is a symbol, h the sequence of *)
(* <<algorithm, value>> tokens if n = "hash".  Symbols stand for texts:    *)
(* i* integers, t* datetimes, p* priorities, bad* none of these.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT Family
Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)

Ints == {"i0", "i1", "i2", "i3"}
Times == {"t0", "t1", "t2", "t3"}
Pris == {"p1", "p2", "p3"}
Changes == {"created", "updated", "deleted"}
MdNames == {"at", "capability", "change", "completed", "from", "hash", "length", "path", "type", "until"}
LnNames == {"hash", "href", "length", "modified", "path", "rel", "pri", "type"}
TimeNames == {"datetime", "at", "completed", "from", "until"}

Names(a) == {a[i].n : i \in DOMAIN a}
Get(a, n) == a[CHOOSE i \in DOMAIN a : a[i].n = n].v
Has(a, n) == n \in Names(a)
Known(a, names) == {a[i] : i \in {j \in DOMAIN a : a[j].n \in names}}

---------------------------------------------------------------------------
(* reading                                                                 *)
MdKnown(v10) == MdNames \cup (IF v10 THEN {} ELSE {"datetime"})
\* attributes of <rs:md> as such
MdOk(a) == /\ Has(a, "change") => Get(a, "change") \in Changes
           /\ Has(a, "length") => Get(a, "length") \in Ints
\* and describing an entry
EntryMdOk(a, v10) == MdOk(a) /\ \A n \in TimeNames : (Has(a, n) /\ n \in MdKnown(v10)) => Get(a, n) \in Times
LnOk(a) == /\ Has(a, "href") /\ Has(a, "rel")
           /\ Has(a, "length") => Get(a, "length") \in Ints
           /\ Has(a, "pri") => Get(a, "pri") \in Pris

Algs == {"md5", "sha-1", "sha-256"}
\* the first token of an algorithm counts, the rest is skipped
Digest(h, alg) == LET k == {i \in DOMAIN h : h[i][1] = alg}
                  IN IF k = {} THEN "none" ELSE h[CHOOSE i \in k : \A j \in k : i <= j][2]
Digests(a) == IF Has(a, "hash") THEN LET h == a[CHOOSE i \in DOMAIN a : a[i].n = "hash"].h
                                     IN [x \in Algs |-> Digest(h, x)]
              ELSE [x \in Algs |-> "none"]
Skipped(a) == Has(a, "hash") /\ LET h == a[CHOOSE i \in DOMAIN a : a[i].n = "hash"].h
                                IN \E i \in DOMAIN h : h[i][1] \notin Algs \/ \E j \in 1..i-1 : h[j][1] = h[i][1]

Kids(c, k) == SelectSeq(c, LAMBDA x : x.k = k)
ItemOk(c, v10) ==
    /\ Len(Kids(c, "loc")) = 1 /\ Kids(c, "loc")[1].v # "empty"
    /\ Len(Kids(c, "lastmod")) <= 1
    /\ \A i \in DOMAIN Kids(c, "lastmod") : Kids(c, "lastmod")[i].v \in Times \cup {"empty"}
    /\ Len(Kids(c, "md")) <= 1
    /\ \A i \in DOMAIN Kids(c, "md") : EntryMdOk(Kids(c, "md")[i].a, v10)
    /\ \A i \in DOMAIN Kids(c, "ln") : LnOk(Kids(c, "ln")[i].a)
Entry(c, v10) ==
    LET md == IF Kids(c, "md") = <<>> THEN <<>> ELSE Kids(c, "md")[1].a
        lm == Kids(c, "lastmod")
    IN [loc |-> Kids(c, "loc")[1].v,
        lastmod |-> IF lm = <<>> \/ lm[1].v = "empty" THEN "none" ELSE lm[1].v,
        atts |-> {[n |-> x.n, v |-> x.v] : x \in Known(md, MdKnown(v10) \ {"hash"})},
        digests |-> Digests(md), skipped |-> Skipped(md),
        ln |-> [i \in DOMAIN Kids(c, "ln") |-> Known(Kids(c, "ln")[i].a, LnNames)]]

Reject(why) == [ok |-> FALSE, why |-> why]
Items(els) == SelectSeq(els, LAMBDA e : e.k = "item")
FirstItem(els) == IF Items(els) = <<>> THEN Len(els) + 1 ELSE CHOOSE i \in DOMAIN els : els[i].k = "item" /\ \A j \in 1..i-1 : els[j].k # "item"
Parse(d) ==
    LET els == d.els
        mds == SelectSeq(els, LAMBDA e : e.k = "md")
        lns == SelectSeq(els, LAMBDA e : e.k = "ln")
        late == \E i \in DOMAIN els : i > FirstItem(els) /\ els[i].k \in {"md", "ln"}
        md == IF mds = <<>> THEN {} ELSE Known(mds[1].a, MdKnown(d.v10))
        caps == {x.v : x \in {y \in md : y.n = "capability"}}
        assumed == caps = {} /\ d.cap = "resourcelist"
    IN CASE d.root \notin {"urlset", "sitemapindex"} -> Reject("root")
         [] d.root = "urlset" /\ d.want = "index" -> Reject("kind")
         [] d.root = "sitemapindex" /\ d.want = "list" -> Reject("kind")
         [] \/ Len(mds) > 1 \/ late
            \/ \E i \in DOMAIN mds : ~MdOk(mds[i].a)
            \/ \E i \in DOMAIN lns : ~LnOk(lns[i].a)
            \/ \E i \in DOMAIN els : els[i].k = "item" /\ ~ItemOk(els[i].c, d.v10) -> Reject("structure")
         [] d.cap # "none" /\ ~assumed /\ caps # {d.cap} -> Reject("capability")
         [] OTHER -> [ok |-> TRUE, index |-> d.root = "sitemapindex",
                      md |-> md \cup (IF assumed THEN {[n |-> "capability", v |-> "resourcelist", h |-> <<>>]} ELSE {}),
                      ln |-> [i \in DOMAIN lns |-> Known(lns[i].a, LnNames)],
                      entries |-> [i \in DOMAIN Items(els) |-> Entry(Items(els)[i].c, d.v10)]]

---------------------------------------------------------------------------
(* writing: a list is [md, ln, entries] with md, and each of ln, attribute *)
(* sequences; an entry is [loc, lastmod, atts, ln].                        *)
(* How: [index, v10, addlast]                                              *)
Att(n, v) == [n |-> n, v |-> v, h |-> <<>>]
El(k, a, c) == [k |-> k, a |-> a, c |-> c]
Kid(k, v, a) == [k |-> k, v |-> v, a |-> a]
Drop(a, n) == SelectSeq(a, LAMBDA x : x.n # n)

WrittenLastmod(e, how) ==
    IF e.lastmod # "none" THEN e.lastmod
    ELSE IF (how.v10 \/ how.addlast) /\ Has(e.atts, "datetime") THEN Get(e.atts, "datetime") ELSE "none"
WriteEntry(e, how) ==
    LET a == IF how.v10 THEN Drop(e.atts, "datetime") ELSE e.atts
    IN El("item", <<>>, <<Kid("loc", e.loc, <<>>)>>
        \o (IF WrittenLastmod(e, how) = "none" THEN <<>> ELSE <<Kid("lastmod", WrittenLastmod(e, how), <<>>)>>)
        \o (IF a = <<>> THEN <<>> ELSE <<Kid("md", "", a)>>)
        \o [i \in DOMAIN e.ln |-> Kid("ln", "", e.ln[i])])
Write(l, how) ==
    [root |-> IF how.index THEN "sitemapindex" ELSE "urlset", want |-> "any", cap |-> how.cap, v10 |-> FALSE,
     els |-> [i \in DOMAIN l.ln |-> El("ln", l.ln[i], <<>>)]
             \o (IF l.md = <<>> THEN <<>> ELSE <<El("md", l.md, <<>>)>>)
             \o [i \in DOMAIN l.entries |-> WriteEntry(l.entries[i], how)]]

\* what reading it gives
Meant(l, how) ==
    [md |-> ToSet(l.md), ln |-> [i \in DOMAIN l.ln |-> ToSet(l.ln[i])],
     entries |-> [i \in DOMAIN l.entries |->
        LET e == l.entries[i]
            a == IF how.v10 THEN Drop(e.atts, "datetime") ELSE e.atts
        IN [loc |-> e.loc, lastmod |-> WrittenLastmod(e, how),
            atts |-> {[n |-> x.n, v |-> x.v] : x \in ToSet(Drop(a, "hash"))},
            digests |-> Digests(a), ln |-> [k \in DOMAIN e.ln |-> ToSet(e.ln[k])]]]]

---------------------------------------------------------------------------
VARIABLES in, done

A1(n, v) == <<Att(n, v)>>
Opt(n, vs) == {<<>>} \cup {A1(n, v) : v \in vs}
GoodLn == A1("rel", "describedby") \o A1("href", "u7")
Doc(root, want, cap, v10, els) == [root |-> root, want |-> want, cap |-> cap, v10 |-> v10, els |-> els]
Loc(u) == Kid("loc", u, <<>>)
Item(u) == El("item", <<>>, <<Loc(u)>>)
Tops == {El("md", A1("capability", "resourcelist"), <<>>), El("ln", GoodLn, <<>>), Item("u1"), El("other", <<>>, <<>>), El("wrongitem", <<>>, <<Loc("u2")>>)}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
OrderCases(z) ==
    {Doc(r, w, "none", FALSE, s) : r \in {"urlset", "sitemapindex"}, w \in {"any", "index", "list"}, s \in SeqsUpTo(Tops, 4)}
    \cup {Doc(r, w, "none", FALSE, s) : r \in {"foreign", "nons", "broken", "entities"}, w \in {"any", "index", "list"}, s \in SeqsUpTo(Tops, 2)}
CapCases(z) ==
    {Doc(r, w, c, v, m \o <<Item("u1")>>) : r \in {"urlset", "sitemapindex"}, w \in {"any", "list"}, c \in {"none", "resourcelist", "changelist", "capabilitylist"}, v \in BOOLEAN,
        m \in {<<>>, <<El("md", <<>>, <<>>)>>, <<El("md", A1("from", "t1"), <<>>)>>} \cup
              {<<El("md", A1("capability", x), <<>>)>> : x \in {"resourcelist", "changelist", "capabilitylist", "description", "unknown1"}}}
Children == {Loc("u1"), Loc("empty"), Kid("lastmod", "t1", <<>>), Kid("lastmod", "bad1", <<>>), Kid("lastmod", "empty", <<>>),
             Kid("md", "", A1("change", "created")), Kid("ln", "", GoodLn), Kid("other", "", <<>>)}
ChildCases(z) == {Doc("urlset", "any", "none", FALSE, <<El("item", <<>>, s), Item("u2")>>) : s \in SeqsUpTo(Children, 4)}
MdAtts == {a \o b \o c \o d \o e \o f :
    a \in Opt("change", {"deleted", "bad1"}), b \in Opt("length", {"i1", "bad1"}), c \in Opt("datetime", {"t1", "bad1"}),
    d \in UNION {Opt(n, {"t2", "bad1"}) : n \in {"at", "completed", "from", "until"}}, e \in Opt("path", {"s1"}) \cup Opt("type", {"s2"}) \cup Opt("capability", {"changelist"}),
    f \in Opt("otherattr", {"bad2"})}
HashAtts == {<<[n |-> "hash", v |-> "", h |-> s]>> : s \in SeqsUpTo({<<"md5", "d1">>, <<"md5", "d2">>, <<"sha-1", "d3">>, <<"sha-256", "d4">>, <<"unknown", "d5">>, <<"plain", "d6">>}, 3)}
AttrCases(z) ==
    {Doc("urlset", "any", "none", v, <<El("item", <<>>, <<Loc("u1"), Kid("md", "", a)>>)>>) : v \in BOOLEAN, a \in MdAtts}
    \cup {Doc("urlset", "any", "none", FALSE, <<El("md", a, <<>>), Item("u1")>>) : a \in MdAtts}
    \cup {Doc("urlset", "any", "none", FALSE, <<El("item", <<>>, <<Loc("u1"), Kid("md", "", a)>>)>>) : a \in HashAtts}
LnAtts == {a \o b \o c \o d \o e : a \in Opt("href", {"u3"}), b \in Opt("rel", {"s1"}), c \in Opt("length", {"i2", "bad1"}),
    d \in Opt("pri", {"p1", "p2", "p3", "badp0", "badpmax", "badpneg", "bad1"}), e \in Opt("modified", {"t1"}) \cup Opt("type", {"s2"}) \cup Opt("path", {"s3"}) \cup Opt("otherattr", {"bad2"})}
LnCases(z) ==
    {Doc("urlset", "any", "none", FALSE, <<El("item", <<>>, <<Loc("u1"), Kid("ln", "", a)>>)>>) : a \in LnAtts}
    \cup {Doc("sitemapindex", "any", "none", FALSE, <<El("ln", GoodLn, <<>>), El("ln", a, <<>>), Item("u1")>>) : a \in LnAtts}

(* lists to be written *)
E(u, lm, a, ln) == [loc |-> u, lastmod |-> lm, atts |-> a, ln |-> ln]
EntAtts == {a \o b \o c \o d \o e \o f :
    a \in Opt("change", {"created"}), b \in Opt("length", {"i0", "i3"}), c \in Opt("datetime", {"t1", "t3"}),
    d \in UNION {Opt(n, {"t2"}) : n \in {"at", "completed", "from", "until"}} \cup Opt("capability", {"changelist"}),
    e \in Opt("path", {"s1"}), f \in Opt("type", {"s2"})}
WHash == {<<>>} \cup {<<[n |-> "hash", v |-> "", h |-> s]>> :
    s \in {<<<<"md5", "d1">>>>, <<<<"sha-1", "d3">>>>, <<<<"sha-256", "d4">>>>, <<<<"md5", "d1">>, <<"sha-256", "d4">>>>,
           <<<<"md5", "d1">>, <<"sha-1", "d3">>, <<"sha-256", "d4">>>>}}
How(index, v10, addlast, cap) == [index |-> index, v10 |-> v10, addlast |-> addlast, cap |-> cap]
TopMd(c) == {A1("capability", c)} \cup {A1("capability", c) \o A1(n, "t1") : n \in {"at", "from", "until", "completed"}}
WriteCases(z) ==
    {[l |-> [md |-> A1("capability", "changelist"), ln |-> <<>>, entries |-> <<E("u1", lm, a, <<>>)>>], how |-> How(FALSE, v10, al, "changelist")] :
        lm \in {"none", "t0", "t2"}, a \in EntAtts, v10 \in BOOLEAN, al \in BOOLEAN}
    \cup {[l |-> [md |-> m, ln |-> tl, entries |-> <<E("u1", "none", A1("capability", "resourcelist") \o h, el), E("u2", "t1", <<>>, <<>>)>>], how |-> How(ix, FALSE, FALSE, "capabilitylist")] :
        m \in TopMd("capabilitylist"), h \in WHash, ix \in BOOLEAN,
        tl \in {<<>>, <<GoodLn>>, <<GoodLn, A1("rel", "up") \o A1("href", "u8") \o A1("type", "s2")>>},
        el \in {<<>>, <<GoodLn>>, <<GoodLn \o A1("length", "i2") \o A1("pri", "p2") \o A1("modified", "t1") \o A1("path", "s1") \o A1("type", "s2"), GoodLn>>}}

IsWrite(c) == "how" \in DOMAIN c
Cases(z) == CASE Family = "order" -> OrderCases(0) [] Family = "caps" -> CapCases(0) [] Family = "children" -> ChildCases(0)
              [] Family = "attrs" -> AttrCases(0) [] Family = "links" -> LnCases(0) [] Family = "write" -> WriteCases(0)
Out(c) == IF IsWrite(c) THEN [tree |-> Write(c.l, c.how), meant |-> Meant(c.l, c.how)] ELSE Parse(c)
Init == /\ done = FALSE
        /\ IF Traced THEN \E i \in DOMAIN Log : in = Log[i] ELSE in \in Cases(0)
Next == ~done /\ done' = TRUE /\ UNCHANGED in /\ PrintT(ToJson([in |-> in, out |-> Out(in)]))
Spec == Init /\ [][Next]_<<in, done>>

\* reading what was written gives the list back
RoundTrip == IsWrite(in) =>
    LET p == Parse(Write(in.l, in.how))
        m == Meant(in.l, in.how)
    IN /\ p.ok /\ p.index = in.how.index /\ p.md = m.md /\ p.ln = m.ln /\ Len(p.entries) = Len(m.entries)
       /\ \A i \in DOMAIN m.entries : \A f \in {"loc", "lastmod", "atts", "digests", "ln"} : p.entries[i][f] = m.entries[i][f]
\* version 1.0 output has no change time, but a modification time whenever there is any time
V10 == IsWrite(in) => (in.how.v10 =>
    \A i \in DOMAIN in.l.entries :
        LET c == WriteEntry(in.l.entries[i], in.how).c IN
        /\ \A j \in DOMAIN c : ~Has(c[j].a, "datetime")
        /\ (Kids(c, "lastmod") = <<>>) = (in.l.entries[i].lastmod = "none" /\ ~Has(in.l.entries[i].atts, "datetime")))
\* an accepted document has a location for every entry and yields all of them
AllEntries == ~IsWrite(in) => LET p == Parse(in) IN p.ok => Len(p.entries) = Len(Items(in.els))
=============================================================================
