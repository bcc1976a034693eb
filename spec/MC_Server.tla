----------------------------- MODULE MC_Server -----------------------------
(* The server as it is built: an accept loop, and per connection a reader that fills a ring of commands from       *)
(* whatever pieces arrive and an executor that takes from it; checked to behave as Server.                          *)
EXTENDS Server, TLC
CONSTANTS N, Lines, Slots, R, RingCheck, Drain, Joins
VARIABLES net, back, slot, part, ring, wr, rd, st, ex, nops, opn
mvars == <<svars, net, back, slot, part, ring, wr, rd, st, ex, nops, opn>>
Cl == 1..N
Ks == 1..Slots
\* net[i]: what is in transit from client i; back: connections not yet taken; slot[k]: the client served in slot k, or 0
MInit == /\ SInit(Cl, 1..N, Slots) /\ net = [i \in Cl |-> <<>>] /\ back = <<>> /\ slot = [k \in Ks |-> 0] /\ part = [k \in Ks |-> 0]
         /\ ring = [k \in Ks |-> [j \in 0..R - 1 |-> 0]] /\ wr = [k \in Ks |-> 0] /\ rd = [k \in Ks |-> 0]
         /\ st = [k \in Ks |-> "free"] /\ ex = [k \in Ks |-> "idle"] /\ nops = 0 /\ opn = [k \in Ks |-> 0]
U(x) == UNCHANGED x
\* clients
Arrive(i) == Connect(i) /\ back' = Append(back, i) /\ U(<<net, slot, part, ring, wr, rd, st, ex, nops, opn>>)
Say(i) == /\ cl[i].st = "in" /\ Len(cl[i].lines) < Lines /\ Line(i, Len(cl[i].lines) + 1)
          /\ net' = [net EXCEPT ![i] = @ \o <<1, 2>>] /\ U(<<back, slot, part, ring, wr, rd, st, ex, nops, opn>>)
Go(i) == cl[i].st = "in" /\ Leave(i, FALSE) /\ U(<<net, back, slot, part, ring, wr, rd, st, ex, nops, opn>>)
\* accept loop
Accept == /\ back # <<>> /\ phase = "on" /\ back' = Tail(back) /\ U(<<net, part, wr, rd, ring>>)
          /\ LET i == Head(back) IN
             IF \E k \in Ks : st[k] = "free"
             THEN LET k == CHOOSE k \in Ks : st[k] = "free" IN
                  /\ slot' = [slot EXCEPT ![k] = i] /\ st' = [st EXCEPT ![k] = "active"] /\ ex' = [ex EXCEPT ![k] = "idle"]
                  /\ nops' = nops + 1 /\ opn' = [opn EXCEPT ![k] = nops + 1]
                  /\ Welcome(nops + 1, k)
             ELSE U(<<slot, st, ex, nops, opn>>) /\ IF cl[i].st = "left" THEN Unseen(i) ELSE Refused(i)
Reap(k) == /\ st[k] = "hung" /\ st' = [st EXCEPT ![k] = "free"] /\ slot' = [slot EXCEPT ![k] = 0]
           /\ part' = [part EXCEPT ![k] = 0] /\ wr' = [wr EXCEPT ![k] = 0] /\ rd' = [rd EXCEPT ![k] = 0]
           /\ U(<<svars, net, back, ring, ex, nops, opn>>)
\* reader: a piece at a time, not beyond the end of a line, and not into a full ring
Next(x) == (x + 1) % R
Read(k) == /\ st[k] = "active" /\ net[slot[k]] # <<>> /\ (RingCheck => Next(wr[k]) # rd[k])
           /\ LET i == slot[k] IN
              \E m \in 1..2 - part[k] :
                 /\ m <= Len(net[i]) /\ net' = [net EXCEPT ![i] = SubSeq(@, m + 1, Len(@))]
                 /\ IF part[k] + m = 2
                    THEN part' = [part EXCEPT ![k] = 0] /\ ring' = [ring EXCEPT ![k][wr[k]] = @ + 1] /\ wr' = [wr EXCEPT ![k] = Next(@)]
                    ELSE part' = [part EXCEPT ![k] = @ + m] /\ U(<<ring, wr>>)
           /\ U(<<svars, back, slot, rd, st, ex, nops, opn>>)
Eof(k) == /\ st[k] = "active" /\ net[slot[k]] = <<>> /\ cl[slot[k]].st = "left" /\ (Drain => rd[k] = wr[k])
          /\ st' = [st EXCEPT ![k] = "closing"] /\ U(<<svars, net, back, slot, part, ring, wr, rd, ex, nops, opn>>)
Cut(k) == st[k] = "active" /\ phase # "on" /\ st' = [st EXCEPT ![k] = "closing"] /\ U(<<svars, net, back, slot, part, ring, wr, rd, ex, nops, opn>>)
\* executor
Exec(k) == /\ st[k] = "active" /\ phase = "on" /\ ex[k] = "idle" /\ rd[k] # wr[k] /\ ex' = [ex EXCEPT ![k] = "run"]
           /\ Begin(opn[k], slot[k], cl[slot[k]].run + 1) /\ U(<<net, back, slot, part, ring, wr, rd, st, nops, opn>>)
ExecEnd(k) == /\ ex[k] = "run" /\ End(opn[k]) /\ ex' = [ex EXCEPT ![k] = "idle"] /\ rd' = [rd EXCEPT ![k] = Next(@)]
              /\ U(<<net, back, slot, part, ring, wr, st, nops, opn>>)
Quit(k) == /\ st[k] = "closing" /\ (Joins => ex[k] # "run") /\ st' = [st EXCEPT ![k] = "hung"]
           /\ IF phase = "on" THEN Term(opn[k])
              ELSE ops' = [ops EXCEPT ![opn[k]].st = "over"] /\ U(<<cl, phase, limit>>)
           /\ U(<<net, back, slot, part, ring, wr, rd, ex, nops, opn>>)
Halt == phase = "on" /\ Stop /\ U(<<net, back, slot, part, ring, wr, rd, st, ex, nops, opn>>)
Halted == /\ phase = "stopping" /\ (\A k \in Ks : st[k] \in {"free", "hung"}) /\ Stopped /\ U(<<net, back, slot, part, ring, wr, rd, st, ex, nops, opn>>)
MNext == \/ \E i \in Cl : Arrive(i) \/ Say(i) \/ Go(i)
         \/ Accept \/ Halt \/ Halted
         \/ \E k \in Ks : Reap(k) \/ Read(k) \/ Eof(k) \/ Cut(k) \/ Exec(k) \/ ExecEnd(k) \/ Quit(k)
Fair == WF_mvars(Accept) /\ WF_mvars(Halted) /\ \A k \in Ks : WF_mvars(Reap(k)) /\ WF_mvars(Read(k)) /\ WF_mvars(Eof(k)) /\ WF_mvars(Cut(k)) /\ WF_mvars(Exec(k)) /\ WF_mvars(ExecEnd(k)) /\ WF_mvars(Quit(k))
MSpec == MInit /\ [][MNext]_mvars /\ Fair
\* the ring never holds more than it can, nothing is written over
Kept == \A k \in Ks : st[k] = "active" => LET i == slot[k] IN
           cl[i].run + (IF ex[k] = "run" THEN 0 ELSE 0) + ((wr[k] - rd[k] + R) % R) - (IF ex[k] = "run" THEN 1 ELSE 0) + (Len(net[i]) + part[k]) \div 2 = Len(cl[i].lines)
\* nobody is terminated with something left to do, nor while a command runs
Proper == \A k \in Ks : st[k] = "closing" /\ phase = "on" => cl[slot[k]].st = "left" /\ Finished(slot[k])
Quiet == \A k \in Ks : st[k] \in {"hung", "free"} => ex[k] # "run"
Run == \A i \in Cl : (cl[i].st \in {"in", "left"} /\ phase = "on" /\ Len(cl[i].lines) = Lines) ~> (cl[i].run = Lines \/ phase # "on" \/ cl[i].st = "refused")
Gone == (phase = "stopping") ~> (phase = "off")
NeverBusy == \A i \in Cl : cl[i].st # "refused"
NeverFull == \A k \in Ks : Next(wr[k]) # rd[k]
NeverReused == nops <= Slots
===========================================================================
