------------------------------- MODULE Pref -------------------------------
(* The preference file: how a file (lines of character codes) becomes a list of entries, and the lookup    *)
(* that walks the entries of one keyword.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES ents,      \* entries in file order: [kw, val]
          prev, idx  \* the keyword of the last successful lookup and the entry it gave (0: none)
pvars == <<ents, prev, idx>>
MaxEnts == 128
MaxLines == 1000
KwCap == 127
Hash == 35
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerAll(s) == [k \in 1..Len(s) |-> Lower(s[k])]
Same(a, b) == LowerAll(a) = LowerAll(b)
From(s, k) == SubSeq(s, k, Len(s))
\* first position from k on with a character in (not in) the set, Len + 1 if there is none
RECURSIVE FindIn(_, _, _), FindOut(_, _, _)
FindIn(s, k, S) == IF k > Len(s) \/ s[k] \in S THEN k ELSE FindIn(s, k + 1, S)
FindOut(s, k, S) == IF k > Len(s) \/ s[k] \notin S THEN k ELSE FindOut(s, k + 1, S)
Blanks == {32, 9}
\* blanks, CR and LF at the end are dropped, except from the first character
RECURSIVE StripTail(_)
StripTail(s) == IF Len(s) > 1 /\ Last(s) \in {13, 10, 32} THEN StripTail(Front(s)) ELSE s
Cut(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
Value(rest) == LET v == From(rest, FindOut(rest, 1, Blanks)) IN
               IF v = <<>> THEN v ELSE StripTail(SubSeq(v, 1, FindIn(v, 2, {Hash}) - 1))
\* the entry of a line, or nothing for a comment or an empty line
Entry(line) == LET s == StripTail(line) t == From(s, FindOut(s, 1, Blanks)) IN
    IF Len(t) < 2 \/ t[1] = Hash THEN <<>>
    ELSE LET w == FindIn(t, 1, Blanks) IN <<[kw |-> Cut(SubSeq(t, 1, w - 1), KwCap), val |-> Value(From(t, w))]>>
RECURSIVE Entries(_, _)
Entries(lines, k) == IF k > Len(lines) THEN <<>> ELSE Entry(lines[k]) \o Entries(lines, k + 1)
Parse(lines) == Cut(Entries(Cut(lines, MaxLines), 1), MaxEnts)

PInit == ents = <<>> /\ prev = <<>> /\ idx = 0
Load(lines) == ents' = Parse(lines) /\ prev' = <<>> /\ idx' = 0
NoFile == UNCHANGED pvars
Next(kw) == LET S == {k \in (IF prev # <<>> /\ Same(kw, prev) THEN idx + 1 ELSE 1)..Len(ents) : Same(ents[k].kw, kw)} IN
            IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
Lookup(kw) == LET k == Next(kw) IN IF k = 0 THEN UNCHANGED pvars ELSE prev' = ents[k].kw /\ idx' = k /\ UNCHANGED ents
Count(kw) == Cardinality({k \in DOMAIN ents : Same(ents[k].kw, kw)})

-----------------------------------------------------------------------------
(* typed values *)
Digit == 48..57
Sign == {43, 45}
White == {32, 9, 10, 11, 12, 13}
\* a number at the front of s: <<ok, hundredths, rest>>
RECURSIVE Dec(_, _)
Dec(s, acc) == IF s = <<>> THEN acc ELSE Dec(Tail(s), 10 * acc + s[1] - 48)
Number(s0) ==
    LET s == From(s0, FindOut(s0, 1, White))
        k == IF s # <<>> /\ s[1] \in Sign THEN 2 ELSE 1
        a == FindOut(s, k, Digit)
        dot == a <= Len(s) /\ s[a] = 46
        b == IF dot THEN FindOut(s, a + 1, Digit) ELSE a
        int == SubSeq(s, k, a - 1)
        frac == IF dot THEN SubSeq(s, a + 1, b - 1) ELSE <<>>
        v == 100 * Dec(int, 0) + Dec(Cut(frac \o <<48, 48>>, 2), 0)
    IN IF int = <<>> /\ frac = <<>> THEN <<FALSE, 0, <<>>>> ELSE <<TRUE, IF s[1] = 45 THEN -v ELSE v, From(s, b)>>
RECURSIVE Numbers(_, _)
Numbers(s, n) == IF n = 0 THEN <<>> ELSE LET x == Number(s) IN IF x[1] THEN <<x[2]>> \o Numbers(x[3], n - 1) ELSE <<>>
IsNumber(v) == v # <<>> /\ (v[1] \in Digit \/ (Len(v) > 1 /\ v[1] \in Sign \cup {46} /\ v[2] \in Digit))
Doubles(v) == LET d == IF IsNumber(v) THEN Numbers(v, 4) ELSE <<>> IN [k \in 1..4 |-> IF k <= Len(d) THEN d[k] ELSE 0]
Abs(x) == IF x < 0 THEN -x ELSE x
Trunc(h) == IF h < 0 THEN -(Abs(h) \div 100) ELSE h \div 100
RECURSIVE Words(_, _)
Words(s0, n) == LET s == From(s0, FindOut(s0, 1, White)) e == FindIn(s, 1, White) IN
                IF n = 0 \/ s = <<>> THEN <<>> ELSE <<SubSeq(s, 1, e - 1)>> \o Words(From(s, e), n - 1)
Starts(s, w) == Len(s) >= Len(w) /\ LowerAll(Cut(s, Len(w))) = w
TrueW == <<116, 114, 117, 101>>
YesW == <<121, 101, 115>>
FalseW == <<102, 97, 108, 115, 101>>
NoW == <<110, 111>>
IsBool(v) == \E w \in {TrueW, YesW, FalseW, NoW} : Starts(v, w)
Bools(v) == LET w == IF IsBool(v) /\ ~IsNumber(v) THEN Words(v, 4) ELSE <<>> IN
            [k \in 1..4 |-> IF k <= Len(w) THEN (IF Starts(w[k], TrueW) \/ LowerAll(w[k]) = YesW THEN 1 ELSE 0) ELSE 0]
\* quoted strings, the first two; one left open runs to the end
Quotes == {34, 39}
Quoted(s) == LET a == FindIn(s, 1, Quotes) IN
             IF a > Len(s) THEN <<>> ELSE LET b == FindIn(s, a + 1, {s[a]}) IN <<SubSeq(s, a + 1, b - 1), From(s, b + 1)>>
Control(v) == LET q == Quoted(v) IN
              IF q = <<>> THEN <<>> ELSE LET r == Quoted(q[2]) IN
              IF r = <<>> \/ q[1] = <<>> \/ r[1] = <<>> THEN <<>> ELSE <<Cut(q[1], 127), Cut(r[1], 511)>>
\* name, number of filters, then four numbers for each
Calibration(v) ==
    LET w == Words(v, 40)
        c == IF Len(w) < 2 THEN <<FALSE, 0, <<>>>> ELSE Number(w[2])
        n == IF c[2] \div 100 > 8 THEN 8 ELSE c[2] \div 100
        x(k) == IF k <= Len(w) THEN Number(w[k])[2] ELSE 0
        whole == LET k == IF w[2][1] \in Sign THEN 2 ELSE 1 IN k <= Len(w[2]) /\ w[2][k] \in Digit
    IN IF ~c[1] \/ ~whole \/ Len(w[1]) > 127 THEN <<>> ELSE <<w[1], n, [k \in 1..4 * n |-> x(k + 2)]>>
\* a count that does not fit its field: what is made of it is not defined, but it stays within the filters
OddCount(v) == LET w == Words(v, 2) x == IF Len(w) < 2 THEN <<FALSE, 0, <<>>>> ELSE Number(w[2]) IN x[1] /\ (x[2] < 0 \/ x[2] > 25599)
\* typ: 0 int, 1 unsigned, 2 bool, 3 float, 4 double, 5 string (n: size of the target), 6 control, 7 calibration; <<>> when it cannot be had
Typed(v, typ, n) ==
    CASE typ = 0 -> <<[k \in 1..n |-> Trunc(Doubles(v)[k])]>>
      [] typ = 1 -> <<[k \in 1..n |-> IF Doubles(v)[k] < 0 THEN 0 ELSE Trunc(Doubles(v)[k])]>>
      [] typ = 2 -> <<[k \in 1..n |-> Bools(v)[k]]>>
      [] typ \in {3, 4} -> <<[k \in 1..n |-> Doubles(v)[k]]>>
      [] typ = 5 -> <<Cut(v, n - 1)>>
      [] typ = 6 -> IF Control(v) = <<>> THEN <<>> ELSE <<Control(v)>>
      [] typ = 7 -> IF Calibration(v) = <<>> THEN <<>> ELSE <<Calibration(v)>>
PInv == /\ Len(ents) <= MaxEnts /\ idx <= Len(ents)
        /\ \A k \in DOMAIN ents : ents[k].kw # <<>> /\ ents[k].kw[1] # Hash
===========================================================================
