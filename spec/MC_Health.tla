---------------------------- MODULE MC_Health ----------------------------
EXTENDS Health
CONSTANTS N, D, MaxRep, MaxRec, Mode, Gps
Far == [hok |-> TRUE, h |-> 5, pok |-> TRUE, lat |-> 9, lon |-> 0]
Near == [hok |-> TRUE, h |-> 1, pok |-> FALSE, lat |-> 0, lon |-> 0]
Init == HInit(N, D, <<0, 0, 0>>)
\* broken engines: the copy goes into the slot of the node; it does not wait for the report; it waits for everyone; it takes any slot again
InRing == /\ phase = "wait" /\ ~late /\ late' = TRUE
          /\ node' = [j \in Nodes |-> IF node[j].act /\ j # 1 /\ Awaited(j).st # "ready"
                                      THEN [node[j] EXCEPT !.ring[noted[j]] = [@ EXCEPT !.st = "ready", !.rep = IF node[j].at = noted[j] THEN @ ELSE Latest(j).rep]] ELSE node[j]]
          /\ UNCHANGED <<noted, phase, pos, made, rec>>
Hasty == /\ phase = "wait"
         /\ LET n == [j \in Nodes |-> IF node[j].act /\ Awaited(j).rep > 0 THEN <<[rep |-> Awaited(j).rep, old |-> FALSE, whole |-> Awaited(j).whole, g |-> NoGps]>> ELSE <<>>] IN
            rec' = [Rec0 EXCEPT !.n = n]
         /\ made' = made + 1 /\ phase' = "idle" /\ UNCHANGED <<noted, late, pos, node>>
Next == \/ \E j \in 1..N : (node[j].n < MaxRep /\ (phase = "wait" => Next1(j, node[j].idx) # noted[j]) /\ \E g \in (IF j = 2 /\ Gps THEN {NoGps, Far, Near} ELSE {NoGps}) : Take(j, g)) \/ Ready(j)
        \/ (IF Mode = "again" THEN phase = "idle" /\ noted' = [j \in Nodes |-> IF noted[j] = -1 \/ j = 1 THEN node[j].idx ELSE noted[j]] /\ phase' = "wait" /\ late' = FALSE /\ UNCHANGED <<node, pos, made, rec>> ELSE Note)
        \/ (IF Mode = "inring" THEN InRing ELSE IF Mode = "waitall" THEN FALSE ELSE Late)
        \/ (made < MaxRec /\ (IF Mode = "hasty" THEN Hasty ELSE IF Mode = "again" THEN phase = "wait" /\ Complete /\ rec' = [Rec0 EXCEPT !.n = [j \in Nodes |-> Part(j)]] /\ made' = made + 1 /\ phase' = "idle" /\ UNCHANGED <<noted, late, pos, node>> ELSE Combine))
Spec == Init /\ [][Next]_hv /\ WF_hv(Note) /\ WF_hv(Late /\ Mode # "waitall") /\ WF_hv(Combine /\ made < MaxRec)
Progress1 == (phase = "wait" /\ made < MaxRec /\ node[1].act /\ Awaited(1).st = "ready") ~> (phase = "idle" \/ made = MaxRec)
\* something to reach: an old report, then the same source again
NeverBack == ~(made >= 3 /\ \E j \in DOMAIN rec.n : rec.n[j] # <<>> /\ rec.n[j][1].old /\ rec.n[j][1].rep > 1)
NeverMoved == pos.h = 0
==========================================================================
