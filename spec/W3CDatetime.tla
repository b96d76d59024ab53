---------------------------- MODULE W3CDatetime ----------------------------
(***************************************************************************)
(* W3C datetimes (the NOTE-datetime profile of ISO 8601).  A string is a   *)
(* sequence of one-character strings; an instant is <<day, sec, micro>>:   *)
(* days since 1970-01-01, seconds of the day, microseconds.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT Family
Traced == "TRACE" \in DOMAIN IOEnv
Log == ndJsonDeserialize(IOEnv.TRACE)

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitSet == {Digits[i] : i \in 1..10}
Val == [d \in DigitSet |-> (CHOOSE i \in 1..10 : Digits[i] = d) - 1]

---------------------------------------------------------------------------
(* the calendar                                                            *)
Leap(y) == (y % 4) = 0 /\ ((y % 100) # 0 \/ (y % 400) = 0)
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>[m]
BeforeMonth(y, m) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
\* days from 0001-01-01 to the first day of year y
YearStart(y) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
Day(y, m, d) == YearStart(y) + BeforeMonth(y, m) + (d - 1) - 719162
YearOf(day) == CHOOSE y \in 1..9999 : Day(y, 1, 1) <= day /\ (y = 9999 \/ day < Day(y + 1, 1, 1))
\* (the same, without searching all years)
YearOfFast(day) == LET n == day + 719162
                       g == ((n * 4) \div 1461) + 1
                   IN CHOOSE y \in (g - 20)..(g + 20) : y >= 1 /\ YearStart(y) <= n /\ n < YearStart(y + 1)
MonthOf(y, k) == CHOOSE m \in 1..12 : BeforeMonth(y, m) <= k /\ k < BeforeMonth(y, m) + MonthDays(y, m)

---------------------------------------------------------------------------
(* reading                                                                 *)
IsD(s, i, j) == j <= Len(s) /\ \A k \in i..j : s[k] \in DigitSet
RECURSIVE Num(_, _, _)
Num(s, i, j) == IF j < i THEN 0 ELSE 10 * Num(s, i, j - 1) + Val[s[j]]
At(s, i, c) == i <= Len(s) /\ s[i] = c

Bad == [ok |-> FALSE]
DateOk(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d >= 1 /\ (m \in 1..12 => d <= MonthDays(y, m))
Instant(y, m, d, secs) ==   \* secs may lie outside the day
    [day |-> Day(y, m, d) + (secs \div 86400), sec |-> (secs % 86400)]

\* last digit of the run of digits beginning at i (i - 1 if none)
RunEnd(s, i) == IF ~IsD(s, i, i) THEN i - 1
                ELSE CHOOSE j \in i..Len(s) : IsD(s, i, j) /\ ~IsD(s, j + 1, j + 1)
Pad6(s, i, j) == LET v == [k \in 1..6 |-> IF i + k - 1 <= j THEN Val[s[i + k - 1]] ELSE 0]
                 IN v[1] * 100000 + v[2] * 10000 + v[3] * 1000 + v[4] * 100 + v[5] * 10 + v[6]

DateOnly(s, y, m, d) ==
    IF ~DateOk(y, m, d) THEN Bad
    ELSE [ok |-> TRUE, at |-> Instant(y, m, d, 0), flip |-> Instant(y, m, d, 0), micro |-> 0, more |-> FALSE]

Parse(s) ==
    LET n == Len(s) IN
    CASE n = 4 /\ IsD(s, 1, 4) -> DateOnly(s, Num(s, 1, 4), 1, 1)
      [] n = 7 /\ IsD(s, 1, 4) /\ At(s, 5, "-") /\ IsD(s, 6, 7) -> DateOnly(s, Num(s, 1, 4), Num(s, 6, 7), 1)
      [] n = 10 /\ IsD(s, 1, 4) /\ At(s, 5, "-") /\ IsD(s, 6, 7) /\ At(s, 8, "-") /\ IsD(s, 9, 10) ->
            DateOnly(s, Num(s, 1, 4), Num(s, 6, 7), Num(s, 9, 10))
      [] /\ n >= 17 /\ IsD(s, 1, 4) /\ At(s, 5, "-") /\ IsD(s, 6, 7) /\ At(s, 8, "-") /\ IsD(s, 9, 10)
         /\ At(s, 11, "T") /\ IsD(s, 12, 13) /\ At(s, 14, ":") /\ IsD(s, 15, 16) ->
            LET hasSec == At(s, 17, ":") /\ IsD(s, 18, 19)
                i == IF hasSec THEN 20 ELSE 17
                hasFrac == hasSec /\ At(s, i, ".") /\ IsD(s, i + 1, i + 1)
                e == IF hasFrac THEN RunEnd(s, i + 1) ELSE 0
                z == IF hasFrac THEN e + 1 ELSE i
                utc == At(s, z, "Z") /\ n = z
                num == (At(s, z, "+") \/ At(s, z, "-")) /\ IsD(s, z + 1, z + 2) /\ At(s, z + 3, ":") /\ IsD(s, z + 4, z + 5) /\ n = z + 5
                y == Num(s, 1, 4)  m == Num(s, 6, 7)  d == Num(s, 9, 10)
                h == Num(s, 12, 13)  mi == Num(s, 15, 16)
                sc == IF hasSec THEN Num(s, 18, 19) ELSE 0
                oh == IF num THEN Num(s, z + 1, z + 2) ELSE 0
                om == IF num THEN Num(s, z + 4, z + 5) ELSE 0
                off == (oh * 3600 + om * 60) * (IF num /\ At(s, z, "-") THEN -1 ELSE 1)
                t == h * 3600 + mi * 60 + sc
            IN IF (utc \/ num) /\ DateOk(y, m, d) /\ h <= 23 /\ mi <= 59 /\ sc <= 59 /\ oh <= 23 /\ om <= 59
               THEN [ok |-> TRUE, at |-> Instant(y, m, d, t - off), flip |-> Instant(y, m, d, t + off),
                     micro |-> IF hasFrac THEN Pad6(s, i + 1, e) ELSE 0,
                     more |-> hasFrac /\ \E k \in (i + 7)..e : s[k] # "0"]
               ELSE Bad
      [] OTHER -> Bad

---------------------------------------------------------------------------
(* writing: a fraction is written with six digits if there is one          *)
RECURSIVE Fix(_, _)
Fix(v, w) == IF w = 0 THEN <<>> ELSE Append(Fix(v \div 10, w - 1), Digits[(v % 10) + 1])
Write(day, sec, micro, nofrac) ==
    LET y == YearOfFast(day)
        k == day - Day(y, 1, 1)
        m == MonthOf(y, k)
        d == k - BeforeMonth(y, m) + 1
    IN Fix(y, 4) \o <<"-">> \o Fix(m, 2) \o <<"-">> \o Fix(d, 2) \o <<"T">> \o Fix(sec \div 3600, 2) \o <<":">>
       \o Fix((sec \div 60) % 60, 2) \o <<":">> \o Fix((sec % 60), 2)
       \o (IF micro = 0 \/ nofrac THEN <<>> ELSE <<".">> \o Fix(micro, 6)) \o <<"Z">>

---------------------------------------------------------------------------
VARIABLES in, done

Years == {0, 1, 4, 31, 100, 400, 999, 1000, 1582, 1899, 1900, 1969, 1970, 1972, 1999, 2000, 2001, 2023, 2024, 2038, 2099, 2100, 2106, 2400, 9999}
ManyYears == IF Family = "dates" THEN Years ELSE 0..9999
D2(v) == Fix(v, 2)
DateStr(y, m, d) == Fix(y, 4) \o <<"-">> \o D2(m) \o <<"-">> \o D2(d)
DateCases(z) ==
    {[s |-> DateStr(y, m, d)] : y \in Years, m \in 0..13, d \in 0..32}
    \cup {[s |-> Fix(y, 4)] : y \in Years} \cup {[s |-> Fix(y, 4) \o <<"-">> \o D2(m)] : y \in Years, m \in 0..13}
Zones == {<<"Z">>, <<>>, <<"z">>, <<"U", "T", "C">>} \cup {<<sg>> \o D2(h) \o <<":">> \o D2(m) : sg \in {"+", "-"}, h \in {0, 1, 5, 12, 23, 24}, m \in {0, 1, 30, 59, 60}}
Secs == {<<>>} \cup {<<":">> \o D2(s) : s \in {0, 9, 59, 60, 61}}
Fracs == {<<>>, <<".">>, <<".", "0">>, <<".", "5">>, <<".", "2", "5">>, <<".", "0", "0", "0", "0", "0", "1">>,
          <<".", "9", "9", "9", "9", "9", "9">>, <<".", "1", "2", "3", "4", "5", "6", "7">>, <<",", "5">>}
TimeCases(z) ==
    {[s |-> d \o <<"T">> \o D2(h) \o <<":">> \o D2(m) \o sc \o f \o zo] :
        d \in {DateStr(2000, 2, 29), DateStr(1969, 12, 31), DateStr(2023, 1, 1)}, h \in {0, 11, 23, 24}, m \in {0, 59, 60}, sc \in Secs, f \in Fracs, zo \in Zones}
Templates == {DateStr(2000, 12, 31), Fix(1997, 4) \o <<"-">> \o D2(7), Fix(1997, 4),
              DateStr(2000, 2, 29) \o <<"T">> \o D2(23) \o <<":">> \o D2(59) \o <<"Z">>,
              DateStr(2000, 2, 29) \o <<"T">> \o D2(23) \o <<":">> \o D2(59) \o <<":">> \o D2(1) \o <<"+">> \o D2(1) \o <<":">> \o D2(30),
              DateStr(1970, 1, 1) \o <<"T">> \o D2(0) \o <<":">> \o D2(0) \o <<":">> \o D2(0) \o <<".", "4", "5">> \o <<"Z">>,
              DateStr(1970, 1, 1) \o <<"T">> \o D2(0) \o <<":">> \o D2(0) \o <<":">> \o D2(0) \o <<".", "4", "5">> \o <<"-">> \o D2(2) \o <<":">> \o D2(0)}
Chars == {"0", "1", "9", "-", "+", ":", ".", "T", "t", "Z", "z", " ", ",", "/", "W", "\n"}
MutantCases(z) ==
    {[s |-> RemoveAt(t, i)] : t \in Templates, i \in 1..0} \cup
    UNION {{[s |-> RemoveAt(t, i)] : i \in 1..Len(t)} : t \in Templates} \cup
    UNION {{[s |-> ReplaceAt(t, i, c)] : i \in 1..Len(t), c \in Chars} : t \in Templates} \cup
    UNION {{[s |-> InsertAt(t, i, c)] : i \in 1..Len(t) + 1, c \in Chars} : t \in Templates} \cup
    UNION {{[s |-> SubSeq(t, 1, i)] : i \in 0..Len(t)} : t \in Templates}
WriteCases(z) ==
    {[day |-> Day(y, m, d), sec |-> sc, micro |-> u] :
        y \in {1902, 1969, 1970, 1999, 2000, 2001, 2004, 2024, 2038, 2099}, m \in {1, 2, 3, 12}, d \in {1, 28}, sc \in {0, 1, 43200, 86399},
        u \in {0, 1, 10, 4999, 123456, 500000, 999999}}
    \cup {[day |-> Day(y, 2, 28) + k, sec |-> 86399, micro |-> 0] : y \in 1..2600 \cup {9998}, k \in 0..2}

Cases(z) == CASE Family = "dates" -> DateCases(0) [] Family = "times" -> TimeCases(0)
              [] Family = "mutants" -> MutantCases(0) [] Family = "writes" -> WriteCases(0)
IsWrite(c) == "day" \in DOMAIN c
Out(c) == IF IsWrite(c) THEN [w |-> Write(c.day, c.sec, c.micro, FALSE), wn |-> Write(c.day, c.sec, c.micro, TRUE)]
          ELSE Parse(c.s)
Init == /\ done = FALSE
        /\ IF Traced THEN \E i \in DOMAIN Log : in = Log[i] ELSE in \in Cases(0)
Next == ~done /\ done' = TRUE /\ UNCHANGED in /\ PrintT(ToJson([in |-> in, out |-> Out(in)]))
Spec == Init /\ [][Next]_<<in, done>>

\* reading what was written gives the instant back
RoundTrip == IsWrite(in) => LET p == Parse(Write(in.day, in.sec, in.micro, FALSE))
                            IN p.ok /\ p.at = [day |-> in.day, sec |-> in.sec] /\ p.micro = in.micro /\ ~p.more
\* whole seconds drop the fraction only
WholeSeconds == IsWrite(in) => LET p == Parse(Write(in.day, in.sec, in.micro, TRUE))
                               IN p.ok /\ p.at = [day |-> in.day, sec |-> in.sec] /\ p.micro = 0
\* the calendar is consistent: consecutive days
Consecutive == IsWrite(in) => LET y == YearOfFast(in.day) IN
                 /\ Day(y, 1, 1) <= in.day /\ in.day <= Day(y, 12, 31)
                 /\ Day(y + 1, 1, 1) = Day(y, 12, 31) + 1
\* only strings over the alphabet of the forms are accepted
Alphabet == ~IsWrite(in) => (Parse(in.s).ok => ToSet(in.s) \subseteq DigitSet \cup {"-", "+", ":", ".", "T", "Z"})
=============================================================================
