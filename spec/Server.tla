------------------------------ MODULE Server ------------------------------
(* The command server as its clients and its handlers see it. Clients connect, send lines, leave; each connection  *)
(* that is taken gets an operator with a slot, whose commands run one at a time, each line once, in order.         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cl, ops, phase, limit
svars == <<cl, ops, phase, limit>>
NewClient == [st |-> "new", lines |-> <<>>, run |-> 0, got |-> 0, void |-> FALSE, past |-> FALSE]
NewOp == [st |-> "none", owner |-> 0, running |-> FALSE, slot |-> 0, hung |-> FALSE]
SInit(C, O, m) == cl = [i \in C |-> NewClient] /\ ops = [o \in O |-> NewOp] /\ phase = "on" /\ limit = m
Live == {o \in DOMAIN ops : ops[o].st = "live"}
\* clients that hold a slot, or may still hold it
Holding == {i \in DOMAIN cl : cl[i].st \in {"in", "half", "left"} /\ ~cl[i].past}
Connect(i) == cl[i].st = "new" /\ cl' = [cl EXCEPT ![i].st = "in"] /\ UNCHANGED <<ops, phase, limit>>
\* a client is turned away only when the others may occupy all slots
Refused(i) == /\ cl[i].st \in {"in", "half"} /\ cl[i].run = 0 /\ Cardinality(Holding \ {i}) >= limit
              /\ cl' = [cl EXCEPT ![i].st = "refused"] /\ UNCHANGED <<ops, phase, limit>>
\* one that was turned away may have left without seeing it
Unseen(i) == /\ cl[i].st = "left" /\ cl[i].run = 0 /\ ~cl[i].past /\ (\A o \in DOMAIN ops : ops[o].owner # i)
             /\ Cardinality(Holding \ {i}) >= limit
             /\ cl' = [cl EXCEPT ![i].st = "refused"] /\ UNCHANGED <<ops, phase, limit>>
NoServer(i) == cl[i].st = "in" /\ phase # "on" /\ cl' = [cl EXCEPT ![i].st = "refused"] /\ UNCHANGED <<ops, phase, limit>>
Line(i, t) == cl' = [cl EXCEPT ![i].lines = Append(@, t)] /\ UNCHANGED <<ops, phase, limit>>
Leave(i, half) == cl' = [cl EXCEPT ![i].st = IF @ = "refused" THEN @ ELSE IF half THEN "half" ELSE "left"] /\ UNCHANGED <<ops, phase, limit>>
Silent(i) == cl' = [cl EXCEPT ![i].void = TRUE] /\ UNCHANGED <<ops, phase, limit>>
Welcome(o, s) == /\ ops[o].st = "none" /\ phase # "off" /\ Cardinality(Live) < limit /\ \A x \in Live : ops[x].slot # s
                 /\ ops' = [ops EXCEPT ![o].st = "live", ![o].slot = s] /\ UNCHANGED <<cl, phase, limit>>
\* an operator serves one client from its first command to the last
Owns(o, i) == IF ops[o].owner # 0 THEN ops[o].owner = i ELSE cl[i].st \notin {"new", "refused"} /\ \A x \in DOMAIN ops : ops[x].owner # i
Begin(o, i, t) ==
    /\ ops[o].st = "live" /\ ~ops[o].running /\ ~ops[o].hung /\ phase # "off" /\ i \in DOMAIN cl /\ Owns(o, i)
    /\ cl[i].run < Len(cl[i].lines) /\ cl[i].lines[cl[i].run + 1] = t
    /\ cl' = [cl EXCEPT ![i].run = @ + 1] /\ ops' = [ops EXCEPT ![o].owner = i, ![o].running = TRUE] /\ UNCHANGED <<phase, limit>>
End(o) == ops[o].running /\ phase # "off" /\ ops' = [ops EXCEPT ![o].running = FALSE] /\ UNCHANGED <<cl, phase, limit>>
Hang(o) == /\ ops[o].running /\ ops' = [ops EXCEPT ![o].hung = TRUE]
           /\ cl' = [cl EXCEPT ![ops[o].owner].void = TRUE] /\ UNCHANGED <<phase, limit>>
Got(i, t) == /\ cl[i].got < cl[i].run /\ cl[i].lines[cl[i].got + 1] = t
             /\ cl' = [cl EXCEPT ![i].got = @ + 1] /\ UNCHANGED <<ops, phase, limit>>
Finished(i) == cl[i].run = Len(cl[i].lines)
\* an operator takes its leave when its client has left and has had all its commands run, or one of the two gave up the other
Term(o) == /\ ops[o].st = "live" /\ ~ops[o].running /\ phase # "off"
           /\ \E i \in DOMAIN cl : Owns(o, i) /\ ops' = [ops EXCEPT ![o].st = "over", ![o].owner = i]
                /\ (cl[i].void \/ phase = "stopping" \/ (cl[i].st \in {"half", "left"} /\ Finished(i)))
           /\ UNCHANGED <<cl, phase, limit>>
\* after a while without news: what was to be done is done, and only the clients that stay hold slots
Settled == /\ \A i \in DOMAIN cl : cl[i].st \in {"in", "half", "left"} /\ ~cl[i].void => Finished(i)
           /\ \A i \in DOMAIN cl : cl[i].st \in {"in", "half"} => cl[i].got = cl[i].run
           /\ Cardinality(Live) = Cardinality({i \in DOMAIN cl : cl[i].st = "in" /\ ~cl[i].void})
           /\ \A o \in Live : ~ops[o].running
           /\ cl' = [i \in DOMAIN cl |-> [cl[i] EXCEPT !.past = @ \/ cl[i].st \in {"half", "left"} \/ cl[i].void]]
           /\ UNCHANGED <<ops, phase, limit>>
Stop == phase = "on" /\ phase' = "stopping" /\ UNCHANGED <<cl, ops, limit>>
\* stopping returns when no operator is at work any more
Stopped == /\ phase = "stopping" /\ phase' = "off" /\ \A o \in DOMAIN ops : ~ops[o].running
           /\ UNCHANGED <<cl, ops, limit>>
\* the server can be had again
Again == /\ phase = "off" /\ phase' = "on" /\ cl' = [i \in DOMAIN cl |-> [cl[i] EXCEPT !.past = cl[i].st # "new", !.void = cl[i].st # "new"]]
         /\ ops' = [o \in DOMAIN ops |-> [ops[o] EXCEPT !.st = IF @ = "live" THEN "over" ELSE @]] /\ UNCHANGED limit
SInv == Cardinality(Live) <= limit /\ \A i \in DOMAIN cl : cl[i].run <= Len(cl[i].lines) /\ cl[i].got <= cl[i].run
===========================================================================
