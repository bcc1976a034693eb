---------------------------- MODULE MC_Sweeps ----------------------------
(* Closed model: any markers a sequence of rays can carry, any interleaving of overview, writing and release, a ring of D slots *)
EXTENDS Sweeps, TLC
CONSTANTS MaxRays, Depth, Marks
VARIABLES hist,     \* markers fed
          out,      \* sweeps written or skipped, as <<a, b>> : gathered ranges
          wrote,    \* <<first ray, symbol>> in order
          gone      \* vacated rays
mvars == <<svars, hist, out, wrote, gone>>
Conf0 == [prods |-> <<[sym |-> "Z", list |-> {0}, base |-> TRUE], [sym |-> "V", list |-> {1}, base |-> TRUE]>>,
          cfgs |-> <<[i |-> 1, kind |-> "P", el |-> 10, az |-> 0]>>, t0 |-> 0, turn |-> 4, rec |-> TRUE]
MInit == SInit(Conf0) /\ hist = <<>> /\ out = <<>> /\ wrote = <<>> /\ gone = {}
InUse(x) == (x >= is /\ (open \/ x > is)) \/ \E k \in 1..Len(due) : due[k].a <= x /\ x <= due[k].b
\* the environment: an end belongs to a sweep that has begun, and the ring is not lapped
MFeed == \E m \in Marks : /\ fed < MaxRays
                          /\ IsEnd(m) => open
                          /\ (fed >= Depth => ~InUse(fed - Depth))
                          /\ Feed(fed, fed, m, 0, 1, IF fed % 2 = 0 THEN {0} ELSE {1})
                          /\ hist' = Append(hist, m)
                          /\ out' = out \o [k \in 1..(Len(due') - Len(due)) |-> <<due'[k + Len(due)].a, due'[k + Len(due)].b>>]
                          /\ UNCHANGED <<wrote, gone>>
MFlush == /\ Flush /\ UNCHANGED <<hist, wrote, gone>>
          /\ out' = out \o [k \in 1..(Len(due') - Len(due)) |-> <<due'[k + Len(due)].a, due'[k + Len(due)].b>>]
MOver == \E a \in is - Depth..is, n \in 0..2 : a >= 0 /\ Overview(a, a + n) /\ UNCHANGED <<hist, out, wrote, gone>>
MWrite == /\ Len(due) > 0 /\ Len(due[1].todo) > 0
          /\ LET d == due[1] s == d.todo[1].sym IN
             /\ Write(s, [x |-> d.x, n |-> d.y - d.x + 1, ok |-> TRUE, g |-> d.g, st |-> Secs(d.x), en |-> Secs(d.y) + 1, ppi |-> TRUE, rhi |-> FALSE, conf |-> 1],
                      [kind |-> "E", val |-> 10, t |-> Secs(d.x), sym |-> s])
             /\ wrote' = Append(wrote, <<d.x, d.y, s>>)
          /\ UNCHANGED <<hist, out, gone>>
MVac == \E x \in 0..fed - 1 : x \notin gone /\ Vacate(x, x) /\ gone' = gone \cup {x} /\ UNCHANGED <<hist, out, wrote>>
MNext == MFeed \/ MFlush \/ MOver \/ MWrite \/ MVac
MSpec == MInit /\ [][MNext]_mvars
\* every sweep handed on starts with a begin, ends with an end (or a flush), has neither in between, and sweeps share at most the ray between them
Whole == \A k \in 1..Len(out) :
    LET a == out[k][1] b == out[k][2] IN
    /\ a < b /\ IsBegin(hist[a + 1])
    /\ \A x \in (a + 1)..(b - 1) : ~IsBegin(hist[x + 1]) /\ ~IsEnd(hist[x + 1])
    /\ k > 1 => (out[k - 1][2] < a \/ (out[k - 1][2] = a /\ IsEnd(hist[a + 1]) /\ IsBegin(hist[a + 1])))
\* and every end closes one
NoneLost == \A x \in 0..Len(hist) - 1 : (IsEnd(hist[x + 1]) /\ \E y \in 0..x - 1 : IsBegin(hist[y + 1])) => \E k \in 1..Len(out) : out[k][2] = x
\* nothing in use is released
Held == \A k \in 1..Len(due) : (due[k].a..due[k].b) \cap gone = {}
HeldOpen == open => gone \cap (is..fed) = {}
\* rays of no sweep are the ones that have to go
Owed == \A x \in owed : ~ \E k \in 1..Len(out) : out[k][1] <= x /\ x < out[k][2]
\* products in order, at most turn rays
Written == /\ \A k \in 1..Len(wrote) : wrote[k][2] - wrote[k][1] + 1 <= cf.turn
           /\ \A j, k \in 1..Len(wrote) : j < k => wrote[j][1] < wrote[k][1] \/ (wrote[j][1] = wrote[k][1] /\ wrote[j][3] = "Z" /\ wrote[k][3] = "V")
NoTwo == ~(Len(due) = 2 /\ gone # {} /\ Len(wrote) > 0)
NoShared == ~(Len(out) = 2 /\ out[1][2] = out[2][1])
NoAbandoned == ~(Len(out) = 1 /\ owed # {} /\ due # <<>>)
===========================================================================
