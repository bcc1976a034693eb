------------------------------ MODULE Sweeps ------------------------------
(* Collection of rays into sweeps: rays arrive with markers; a ray marked as end closes the sweep that     *)
(* reaches back to the latest begin (or to the previous end if that ray also began this sweep).  Sweeps    *)
(* are overviewed and then written product by product, one sweep at a time and in order; a ray is vacated  *)
(* only if no open or unfinished sweep has it.  Rays of an abandoned sweep, or of none, must be vacated.   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cf,       \* prods : sequence of [sym, list, base], cfgs : sequence of [i, kind, el, az], t0, turn : rays of a full turn (360)
          fed,      \* rays fed so far, ray ids 0..fed-1
          is,       \* first ray of the sweep being collected
          cur,      \* rays is..fed-1 in runs of alike rays [a, b, m, cfg, g, pl]
          open,     \* a sweep has begun and not ended
          rec,      \* recording is on
          due,      \* sweeps that have ended and are not finished
          ov,       \* rays that have been overviewed
          owed,     \* rays that belong to no sweep and are to be vacated
          nsweeps, live
svars == <<cf, fed, is, cur, open, rec, due, ov, owed, nsweeps, live>>
Mid == 1
Has(m, b) == (m \div b) % 2 = 1
IsMid(m) == Has(m, 1)
IsBegin(m) == Has(m, 2)
IsEnd(m) == Has(m, 4)

SInit(c) == /\ cf = c /\ fed = 0 /\ is = 0 /\ cur = <<>> /\ open = FALSE /\ rec = c.rec /\ due = <<>> /\ ov = {} /\ owed = {}
            /\ nsweeps = 0 /\ live = TRUE

RunOf(c, x) == CHOOSE k \in 1..Len(c) : c[k].a <= x /\ x <= c[k].b
At(c, x) == c[RunOf(c, x)]
\* the runs from ray x on
From(c, x) == LET s == SelectSeq(c, LAMBDA r : r.b >= x) IN
              IF Len(s) = 0 THEN s ELSE <<[s[1] EXCEPT !.a = IF s[1].a < x THEN x ELSE s[1].a]>> \o Tail(s)
RECURSIVE MidCount(_, _, _)
MidCount(c, x, y) == IF Len(c) = 0 THEN 0 ELSE
    LET r == Head(c) lo == IF r.a > x THEN r.a ELSE x hi == IF r.b < y THEN r.b ELSE y IN
    (IF IsMid(r.m) /\ lo <= hi THEN hi - lo + 1 ELSE 0) + MidCount(Tail(c), x, y)

\* where a sweep of n rays is trimmed to: <<offset, count>>
Trim(c, a, b) ==
    LET n == b - a + 1 S == At(c, a).m T == At(c, a + 1).m E == At(c, b).m IN
    IF n <= cf.turn \/ n >= cf.turn + 20 THEN <<0, n>>
    ELSE IF IsBegin(T) THEN <<1, cf.turn>>
    ELSE IF n > cf.turn + 1 THEN <<n - cf.turn - (IF IsEnd(E) THEN 1 ELSE 0), cf.turn>>
    ELSE IF IsBegin(S) THEN <<0, cf.turn>>
    ELSE <<0, n>>

Collect1(c, a, b) ==
    LET tr == Trim(c, a, b) x == a + tr[1] y == x + tr[2] - 1 lists == UNION {c[k].pl : k \in 1..Len(c)}
        conf == cf.cfgs[At(c, a + 1).cfg + 1] IN
    [a |-> a, b |-> b, x |-> x, y |-> y, g |-> At(c, x).g, conf |-> conf,
     all |-> <<>>, todo |-> IF rec /\ tr[2] >= 3 /\ 10 * MidCount(c, x, y) >= 8 * tr[2]
              THEN SelectSeq(cf.prods, LAMBDA p : p.list \cap lists # {}) ELSE <<>>]

Collect(c, a, b) == LET d == Collect1(c, a, b) IN [d EXCEPT !.all = d.todo]

\* overview marks that still matter
Keep(s, q) == LET lo == IF Len(q) > 0 THEN q[1].a ELSE is IN {x \in s : x >= lo}

\* rays a..b fed, all alike; only a single one may begin or end a sweep
Feed(a, b, m, c, g, pl) ==
    /\ live /\ a = fed /\ b >= a
    /\ (IsBegin(m) \/ IsEnd(m)) => a = b
    /\ fed' = b + 1
    /\ LET r == [a |-> a, b |-> b, m |-> m, cfg |-> c, g |-> g, pl |-> pl] cc == Append(cur, r) IN
       IF IsEnd(m) /\ is = a THEN
           /\ is' = (IF IsBegin(m) THEN a ELSE a + 1) /\ cur' = (IF IsBegin(m) THEN <<r>> ELSE <<>>) /\ open' = IsBegin(m)
           /\ owed' = (IF IsBegin(m) THEN owed ELSE owed \cup {a})
           /\ UNCHANGED <<due, nsweeps>>
       ELSE IF IsEnd(m) THEN
           /\ due' = Append(due, Collect(cc, is, a))
           /\ nsweeps' = nsweeps + 1
           /\ is' = a /\ cur' = <<r>> /\ open' = IsBegin(m)
           /\ UNCHANGED owed
       ELSE IF IsBegin(m) THEN
           /\ owed' = owed \cup {x \in is..(a - 1) : ~IsEnd(At(cur, x).m)}
           /\ is' = a /\ cur' = <<r>> /\ open' = TRUE
           /\ UNCHANGED <<due, nsweeps>>
       ELSE /\ cur' = cc /\ UNCHANGED <<is, open, owed, due, nsweeps>>
    /\ UNCHANGED <<cf, rec, ov, live>>

\* the open sweep is made to end with the latest ray
Flush ==
    /\ live /\ open /\ due = <<>>
    /\ LET a == fed - 1 IN
       IF is = a THEN /\ is' = fed /\ cur' = <<>> /\ owed' = owed \cup {a} /\ UNCHANGED <<due, nsweeps>>
       ELSE LET r == [At(cur, a) EXCEPT !.a = a, !.m = @ + 4]
                cc == SelectSeq([k \in 1..Len(cur) |-> IF cur[k].b = a THEN [cur[k] EXCEPT !.b = a - 1] ELSE cur[k]], LAMBDA q : q.b >= q.a) \o <<r>> IN
            /\ due' = Append(due, Collect(cc, is, a)) /\ nsweeps' = nsweeps + 1 /\ is' = a /\ cur' = <<r>> /\ UNCHANGED owed
    /\ open' = FALSE
    /\ UNCHANGED <<cf, fed, rec, ov, live>>

SetRecord(v) == /\ due = <<>> /\ rec' = v /\ UNCHANGED <<cf, fed, is, cur, open, due, ov, owed, nsweeps, live>>

\* rays a..b get their overview mark as part of the oldest unfinished sweep
Overview(a, b) ==
    /\ Len(due) > 0
    /\ LET d == due[1] IN d.x <= a /\ b <= d.y
    /\ (a..b) \cap ov = {}
    /\ LET o == ov \cup (a..b) IN
       /\ due' = (IF due[1].x..due[1].y \subseteq o /\ due[1].todo = <<>> THEN Tail(due) ELSE due)
       /\ ov' = Keep(o, due')
    /\ UNCHANGED <<cf, fed, is, cur, open, rec, owed, nsweeps, live>>

\* the next product of the oldest unfinished sweep is written
FileKind(d) == IF d.conf.kind = "P" THEN <<"E", d.conf.el>> ELSE IF d.conf.kind = "R" THEN <<"A", d.conf.az>> ELSE <<"N", d.y - d.x + 1>>
Secs(x) == cf.t0 + x \div 4
Write(sym, w, f) ==
    /\ Len(due) > 0
    /\ LET d == due[1] IN
       /\ d.x..d.y \subseteq ov
       /\ Len(d.todo) > 0 /\ d.todo[1].sym = sym
       /\ f = [kind |-> FileKind(d)[1], val |-> FileKind(d)[2], t |-> Secs(d.x), sym |-> sym]
       /\ d.todo[1].base => w = [x |-> d.x, n |-> d.y - d.x + 1, ok |-> TRUE, g |-> d.g, st |-> Secs(d.x), en |-> Secs(d.y) + 1,
                                 ppi |-> d.conf.kind = "P", rhi |-> d.conf.kind = "R", conf |-> d.conf.i]
       /\ due' = (IF Len(d.todo) = 1 THEN Tail(due) ELSE <<[d EXCEPT !.todo = Tail(@)]>> \o Tail(due))
       /\ ov' = Keep(ov, due')
    /\ UNCHANGED <<cf, fed, is, cur, open, rec, owed, nsweeps, live>>

Vacate(a, b) ==
    /\ b < is \/ (b = is /\ ~open)
    /\ \A k \in 1..Len(due) : b < due[k].a \/ a > due[k].b
    /\ owed' = owed \ (a..b)
    /\ UNCHANGED <<cf, fed, is, cur, open, rec, due, ov, nsweeps, live>>

Quiet == due = <<>> /\ owed = {}
\* stopped: a sweep is not left half way
Stop(business) ==
    /\ live /\ business = 0
    /\ Len(due) > 0 => due[1].x..due[1].y \cap ov \subseteq {due[1].x} /\ due[1].todo = due[1].all
    /\ live' = FALSE
    /\ UNCHANGED <<cf, fed, is, cur, open, rec, due, ov, owed, nsweeps>>
===========================================================================
