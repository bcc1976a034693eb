------------------------------ MODULE Health ------------------------------
(* The health engine. Every source (node) has a ring of reports: it takes the next slot, fills it in and  *)
(* declares it ready. The engine notes, for each round, which slot each node will fill in next, waits     *)
(* until all of these are ready - or, for nodes other than the first, until it has waited long enough -   *)
(* and emits one record that contains one report per active node: the awaited one, or a copy of the       *)
(* latest complete one with every reading marked old. Positions reported by a GPS replace those of the    *)
(* description once they differ significantly several times in a row; while there are none, the record    *)
(* shows those of the description.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES node,     \* node -> [act, idx, n, at, ring: 0..D-1 -> [rep, st, whole, g]]
          noted,    \* node -> slot awaited (-1 at first)
          phase,    \* "idle", "wait"
          late,     \* it has waited long enough
          pos,      \* the position of the radar: [h, lat, lon, hc, lc]
          made,     \* number of records so far
          rec       \* the latest record
hv == <<node, noted, phase, late, pos, made, rec>>
\* a reading of the GPS: [hok, h, pok, lat, lon]
NoGps == [hok |-> FALSE, h |-> 0, pok |-> FALSE, lat |-> 0, lon |-> 0]
Slot0 == [rep |-> 0, st |-> "vacant", whole |-> TRUE, g |-> NoGps]
Rec0 == [n |-> <<>>, hov |-> TRUE, pov |-> TRUE, h |-> 0, lat |-> 0, lon |-> 0]
HInit(N, D, p) ==
    /\ node = [j \in 1..N |-> [act |-> FALSE, idx |-> 0, n |-> 0, at |-> -1, d |-> D, ring |-> [k \in 0..(D - 1) |-> Slot0]]]
    /\ noted = [j \in 1..N |-> -1]
    /\ phase = "idle" /\ late = FALSE
    /\ pos = [h |-> p[1], lat |-> p[2], lon |-> p[3], hc |-> 0, lc |-> 0]
    /\ made = 0 /\ rec = Rec0
Nodes == DOMAIN node
Next1(j, k) == (k + 1) % node[j].d
Prev1(j, k) == (k + node[j].d - 1) % node[j].d
\* a source takes its next slot and begins to fill it in
Take(j, g) ==
    /\ node[j].at = -1
    /\ LET k == node[j].idx IN
       node' = [node EXCEPT ![j].act = TRUE, ![j].at = k, ![j].idx = Next1(j, k), ![j].n = @ + 1,
                            ![j].ring[k] = [@ EXCEPT !.rep = node[j].n + 1, !.whole = FALSE, !.g = g],
                            ![j].ring[Next1(j, k)] = Slot0]
    /\ UNCHANGED <<noted, phase, late, pos, made, rec>>
Ready(j) ==
    /\ node[j].at # -1
    /\ node' = [node EXCEPT ![j].at = -1, ![j].ring[node[j].at].st = "ready", ![j].ring[node[j].at].whole = TRUE]
    /\ UNCHANGED <<noted, phase, late, pos, made, rec>>
\* the engine
Note ==
    /\ phase = "idle" /\ \E j \in Nodes : noted[j] # node[j].idx
    /\ noted' = [j \in Nodes |-> node[j].idx] /\ phase' = "wait" /\ late' = FALSE
    /\ UNCHANGED <<node, pos, made, rec>>
Late == phase = "wait" /\ ~late /\ late' = TRUE /\ UNCHANGED <<node, noted, phase, pos, made, rec>>
Awaited(j) == node[j].ring[noted[j]]
Latest(j) == LET k == Prev1(j, noted[j]) IN IF node[j].ring[k].st # "vacant" THEN node[j].ring[k] ELSE node[j].ring[Prev1(j, k)]
\* what the record has from node j: none, or [rep, old, whole, g]
Part(j) == IF ~node[j].act THEN <<>>
           ELSE IF Awaited(j).st = "ready" THEN <<[rep |-> Awaited(j).rep, old |-> FALSE, whole |-> Awaited(j).whole, g |-> Awaited(j).g]>>
           ELSE IF Latest(j).st # "vacant" THEN <<[rep |-> Latest(j).rep, old |-> TRUE, whole |-> Latest(j).whole, g |-> NoGps]>>
           ELSE <<>>
Complete == \A j \in Nodes : node[j].act => Awaited(j).st = "ready" \/ (late /\ j # 1)
\* the reading of the GPS in the record, and what becomes of the position
Abs(x) == IF x < 0 THEN -x ELSE x
Reading(n) == LET S == {j \in DOMAIN n : n[j] # <<>> /\ (n[j][1].g.hok \/ n[j][1].g.pok)} IN IF S = {} THEN NoGps ELSE n[CHOOSE j \in S : TRUE][1].g
Place(p, g) ==
    LET fh == Abs(p.h - g.h) > 1
        fp == Abs(p.lat - g.lat) > 3 \/ Abs(p.lon - g.lon) > 3
        a == IF ~g.hok THEN p ELSE IF ~fh THEN [p EXCEPT !.hc = 0] ELSE IF p.hc > 3 THEN [p EXCEPT !.h = g.h, !.hc = 0] ELSE [p EXCEPT !.hc = @ + 1] IN
    IF ~g.pok THEN a ELSE IF ~fp THEN [a EXCEPT !.lc = 0] ELSE IF p.lc > 3 THEN [a EXCEPT !.lat = g.lat, !.lon = g.lon, !.lc = 0] ELSE [a EXCEPT !.lc = @ + 1]
Combine ==
    /\ phase = "wait" /\ Complete
    /\ LET n == [j \in Nodes |-> Part(j)] g == Reading(n) IN
       /\ rec' = [n |-> n, hov |-> ~g.hok, pov |-> ~g.pok, h |-> pos.h, lat |-> pos.lat, lon |-> pos.lon]
       /\ pos' = Place(pos, g)
       /\ node' = [j \in Nodes |-> IF n[j] # <<>> /\ ~n[j][1].old THEN [node[j] EXCEPT !.ring[noted[j]].st = "used"] ELSE node[j]]
    /\ made' = made + 1 /\ phase' = "idle" /\ UNCHANGED <<noted, late>>
\* ---- what is to hold of the records ----
Whole == \A j \in DOMAIN rec.n : rec.n[j] # <<>> => rec.n[j][1].whole /\ rec.n[j][1].rep > 0
\* a source that has been reporting when the round began is in the record
Everyone == [][made' # made => \A j \in Nodes : node[j].act /\ node[j].n >= 2 => rec'.n[j] # <<>>]_hv
\* reports come in order, and none twice as a new one
InOrder == [][made' # made => \A j \in DOMAIN rec.n : rec.n[j] # <<>> => rec'.n[j] # <<>> /\
              IF rec'.n[j][1].old THEN rec'.n[j][1].rep >= rec.n[j][1].rep
              ELSE rec'.n[j][1].rep > rec.n[j][1].rep \/ (rec.n[j][1].old /\ rec'.n[j][1].rep = rec.n[j][1].rep)]_hv
\* the awaited report, if there is one, is what counts: old values only if there was none for the while
OldOnlyLate == [][made' # made => \A j \in Nodes : rec'.n[j] # <<>> /\ rec'.n[j][1].old => late /\ j # 1]_hv
\* the position does not follow a single reading that is off
Steady == [][pos'.h # pos.h => pos.hc = 4]_hv
Progress == (phase = "wait" /\ node[1].act /\ Awaited(1).st = "ready") ~> (phase = "idle")
===========================================================================
