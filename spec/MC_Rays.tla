----------------------------- MODULE MC_Rays -----------------------------
(* A small closed moment engine: any feed of N pulses in well-formed sweeps, workers that complete
   rays in any order, a counter and a reader that lag behind as they please. *)
EXTENDS Rays, TLC
CONSTANTS N, Depth, Cap, Excl, Workers, Cells

Conf == [pdepth |-> 99, rdepth |-> Depth, cores |-> Workers, excl |-> Excl, reader |-> TRUE, hot |-> FALSE, cap |-> Cap, old |-> 1]
Init == RInit(Conf)
LastEnd == fed = 0 \/ Has(Pulse(fed - 1).m, SweepEnd)
Marks == IF LastEnd THEN {2, 6} ELSE {0, 4}
\* a well-behaved feeder leaves room in the ray ring
Fed == /\ fed < N /\ Posted - ngot < Depth - 2
       /\ \E c \in Cells, m \in Marks : Feed(fed, [cell |-> c, az |-> 8 * c, el |-> 0, m |-> m, comp |-> 1, cfg |-> 0, gates |-> 1])
\* worker w takes rays w, w + Workers, ... in turn
Turn(t) == t \in DOMAIN ask /\ t \notin DOMAIN ready /\ \A s \in DOMAIN ask : (s < t /\ (t - s) % Workers = 0) => s \in DOMAIN ready
Done(t) == /\ Turn(t)
           /\ LET o == ask[t].o  e == ask[t].e  w == Worthy(o, e) IN
              Ready(t, t % Depth, o, e, [pc |-> e - o + 1, saz |-> Pulse(o).az, sel |-> 0, eaz |-> Pulse(e).az, eel |-> 0,
                    marker |-> OrMarks(o, e), cfg |-> 0, gates |-> 1, swel |-> 0, used |-> 1,
                    proc |-> IF w THEN 1 ELSE 0, skip |-> IF w THEN 0 ELSE 1, first |-> o, last |-> e])
Next == \/ Fed
        \/ \E t \in DOMAIN ask : Done(t)
        \/ Count((nx + 1) % Depth)
        \/ Read(nread) \/ Got(ngot)
        \/ \E t \in DOMAIN ready : Vacate(t) /\ t < nx
Spec == Init /\ [][Next]_rvars /\ WF_rvars(Count((nx + 1) % Depth)) /\ WF_rvars(Read(nread)) /\ WF_rvars(Got(ngot))
        /\ WF_rvars(Fed) /\ \A t \in 0..N : WF_rvars(Done(t))

Rs == DOMAIN ask
Whole == \A t \in Rs : ask[t].o < ask[t].e /\ ask[t].e < fed /\ ask[t].e - ask[t].o + 1 <= Cap
OneSweepEach == \A t \in Rs : OneSweep(ask[t].o, ask[t].e)
InOrder == \A t \in Rs : t + 1 \in Rs => ask[t + 1].o \in {ask[t].e, ask[t].e + 1} \/ Has(Pulse(ask[t + 1].o).m, SweepBegin)
                                        \/ Has(Pulse(ask[t].e).m, SweepEnd)
\* interior pulses are all of the cell of the first
SameCell == \A t \in Rs : \A n \in ask[t].o..(ask[t].e - 1) : Pulse(n).cell = Pulse(ask[t].o).cell
\* every pulse of a completed sweep is in a ray, unless its sweep has a single pulse
Covered == \A n \in 0..(fed - 1) : (n < g.o /\ ~(Has(Pulse(n).m, SweepBegin) /\ Has(Pulse(n).m, SweepEnd)))
                => \E t \in Rs : ask[t].o <= n /\ n <= ask[t].e
\* without sharing, a pulse is in two rays only where a ray would otherwise be a single pulse
Disjoint == Excl => \A s, t \in Rs : (s < t /\ ask[s].e >= ask[t].o) => (t = s + 1 /\ ask[s].e = ask[s].o + 1 /\ ask[t].o = ask[s].e)
RingHolds == \A s, t \in Rs : (s < t /\ s % Depth = t % Depth) => s < ngot
Counts == ngot <= nread /\ nread <= Posted /\ nx <= Posted
NoSplit == \A t \in Rs : ask[t].e - ask[t].o + 1 < Cap
NoShare == \A s, t \in Rs : s < t => ask[s].e < ask[t].o
NoOrder == \A t \in DOMAIN ready : \A s \in 0..t : s \in DOMAIN ready
AllRead == <>[](nread = Posted /\ ngot = Posted /\ nx = Posted)
==========================================================================
