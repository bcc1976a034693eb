----------------------------- MODULE MC_Socket -----------------------------
(* The client as it is built: one thread that connects, empties a ring of submissions, reads whatever pieces come   *)
(* into one buffer and takes the frames that are complete. Each frame is two units on the wire. Variants go wrong.   *)
EXTENDS Socket, TLC
CONSTANTS N, M, P, R, Sessions, RoomCheck, OneBuffer, OneFrame, KeepRest
VARIABLES net, buf, ring, h, t, pc, back, nm, sess, shut, out, over, pcs
\* net: units from the peer in transit (a frame is <<kind, id, 1>>, <<kind, id, 2>>); buf: what the client has read
\* ring, h, t: submissions; pc: the client's thread; back: units from the client in transit; out: what the peer is yet to send
\* over: something the client took was not a frame
imp == <<net, buf, ring, h, t, pc, back, nm, sess, shut, out, over, pcs>>
mvars == <<wvars, imp>>
Subs == 1..N
MInit == /\ WInit(Subs, R - 1) /\ net = <<>> /\ buf = <<>> /\ ring = [k \in 0..R - 1 |-> 0] /\ h = 0 /\ t = 0 /\ pc = "down"
         /\ back = <<>> /\ nm = 0 /\ sess = 0 /\ shut = FALSE /\ out = "none" /\ over = FALSE /\ pcs = [s \in Subs |-> "idle"]
Next(x) == (x + 1) % R
Fr(k, i) == <<<<k, i, 1>>, <<k, i, 2>>>>
\* ---- those who submit
Sub(s) == /\ pcs[s] = "idle" /\ Call(s) /\ pcs' = [pcs EXCEPT ![s] = "in"] /\ UNCHANGED <<net, buf, ring, h, t, pc, back, nm, sess, shut, out, over>>
Put(s) == /\ pcs[s] = "in"
          /\ IF RoomCheck /\ Next(h) = t THEN pcs' = [pcs EXCEPT ![s] = "no"] /\ UNCHANGED <<ring, h>>
             ELSE pcs' = [pcs EXCEPT ![s] = "yes"] /\ ring' = [ring EXCEPT ![Next(h)] = s] /\ h' = Next(h)
          /\ UNCHANGED <<wvars, net, buf, t, pc, back, nm, sess, shut, out, over>>
Ret(s) == /\ pcs[s] \in {"yes", "no"} /\ pcs' = [pcs EXCEPT ![s] = "over"]
          /\ (IF pcs[s] = "yes" THEN Return(s) ELSE Refused(s, FALSE)) /\ UNCHANGED <<net, buf, ring, h, t, pc, back, nm, sess, shut, out, over>>
\* ---- the peer
Answer == /\ out = "none" /\ pc = "asking" /\ back = <<>> /\ Acc /\ out' = "asked" /\ shut' = FALSE /\ UNCHANGED <<net, buf, ring, h, t, pc, back, nm, sess, over, pcs>>
Shake == /\ out = "asked" /\ Hs /\ net' = Fr("h", 0) /\ out' = "in" /\ UNCHANGED <<buf, ring, h, t, pc, back, nm, sess, shut, over, pcs>>
Say == /\ out = "in" /\ nm < M /\ nm' = nm + 1 /\ Msg(nm + 1) /\ net' = net \o Fr("m", nm + 1) /\ UNCHANGED <<buf, ring, h, t, pc, back, sess, shut, out, over, pcs>>
Prod == /\ out = "in" /\ Len(pings) < P /\ Ping(Len(pings) + 1) /\ net' = net \o Fr("p", Len(pings) + 1) /\ UNCHANGED <<buf, ring, h, t, pc, back, nm, sess, shut, out, over, pcs>>
Bye == /\ out = "in" /\ Close /\ net' = net \o Fr("c", 0) /\ out' = "bye" /\ UNCHANGED <<buf, ring, h, t, pc, back, nm, sess, shut, over, pcs>>
Half == /\ out = "in" /\ End("half") /\ out' = "bye" /\ shut' = TRUE /\ UNCHANGED <<net, buf, ring, h, t, pc, back, nm, sess, over, pcs>>
\* what the peer finds in the frames that come
Next2 == back # <<>> /\ back' = Tail(back)
Hear == /\ Next2 /\ UNCHANGED <<net, buf, ring, h, t, pc, nm, sess, shut, out, pcs>>
        /\ LET f == Head(back) IN
           \/ f[1] = "s" /\ Receive(f[2], TRUE) /\ UNCHANGED over
           \/ f[1] = "g" /\ Pong(f[2]) /\ UNCHANGED over
           \/ f[1] = "k" /\ CloseBack /\ UNCHANGED over
           \/ f[1] = "s" /\ ~ENABLED Receive(f[2], TRUE) /\ over' = TRUE /\ UNCHANGED wvars
           \/ f[1] = "g" /\ ~ENABLED Pong(f[2]) /\ over' = TRUE /\ UNCHANGED wvars
           \/ f[1] = "k" /\ ~ENABLED CloseBack /\ over' = TRUE /\ UNCHANGED wvars
Part == /\ out \in {"in", "bye"} /\ pc \in {"down", "off"} /\ back = <<>> /\ out' = "none" /\ net' = <<>>
        /\ IF ENABLED Eof THEN Eof /\ UNCHANGED over ELSE over' = TRUE /\ UNCHANGED wvars
        /\ UNCHANGED <<buf, ring, h, t, pc, back, nm, sess, shut, pcs>>
\* ---- the client's thread
Connect == /\ pc = "down" /\ run = "on" /\ sess < Sessions /\ out = "none" /\ pc' = "asking" /\ sess' = sess + 1 /\ buf' = <<>>
           /\ UNCHANGED <<wvars, net, ring, h, t, back, nm, shut, out, over, pcs>>
Read == /\ pc \in {"asking", "open"} /\ out # "none" /\ net # <<>> /\ \E n \in 1..Len(net) : buf' = buf \o SubSeq(net, 1, n) /\ net' = SubSeq(net, n + 1, Len(net))
        /\ pc' = (IF pc = "asking" THEN "asking" ELSE "take") /\ UNCHANGED <<wvars, ring, h, t, back, nm, sess, shut, out, over, pcs>>
Welcome == /\ pc = "asking" /\ Len(buf) >= 2 /\ pc' = "opening" /\ buf' = (IF KeepRest THEN SubSeq(buf, 3, Len(buf)) ELSE <<>>) /\ t' = h
           /\ UNCHANGED <<wvars, net, ring, h, back, nm, sess, shut, out, over, pcs>>
Opened == /\ pc = "opening" /\ Open /\ pc' = "take" /\ UNCHANGED <<net, buf, ring, h, t, back, nm, sess, shut, out, over, pcs>>
Lost == IF OneBuffer THEN [k \in 1..Len(buf) |-> <<"x", 0, 0>>] ELSE buf
Bad == over' = TRUE /\ UNCHANGED wvars
Take == /\ pc = "take" /\ UNCHANGED <<net, ring, h, t, nm, sess, shut, out, pcs>>
        /\ IF Len(buf) < 2 THEN pc' = "open" /\ UNCHANGED <<wvars, buf, back, over>>
           ELSE LET a == buf[1] b == buf[2]  rest == IF OneFrame THEN <<>> ELSE SubSeq(buf, 3, Len(buf)) IN
                IF ~(a[3] = 1 /\ b[3] = 2 /\ a[1] = b[1] /\ a[2] = b[2]) THEN Bad /\ pc' = "closing" /\ UNCHANGED <<buf, back>>
                ELSE /\ pc' = (IF a[1] = "c" THEN "closing" ELSE "take") /\ buf' = rest
                     /\ IF a[1] = "m" THEN UNCHANGED back /\ IF ENABLED Deliver(a[2], TRUE) THEN (Deliver(a[2], TRUE) /\ UNCHANGED over) ELSE Bad
                        ELSE UNCHANGED <<wvars, over>> /\ back' = Append(back, IF a[1] = "p" THEN <<"g", a[2]>> ELSE <<"k", 0>>)
Write == /\ pc = "open" /\ t # h /\ t' = Next(t) /\ back' = Append(back, <<"s", ring[Next(t)]>>) /\ buf' = Lost
         /\ UNCHANGED <<wvars, net, ring, h, pc, nm, sess, shut, out, over, pcs>>
Hung == /\ pc = "open" /\ net = <<>> /\ (shut \/ run # "on") /\ pc' = "closing" /\ UNCHANGED <<wvars, net, buf, ring, h, t, back, nm, sess, shut, out, over, pcs>>
Gone == /\ pc = "closing" /\ pc' = "down" /\ (IF ENABLED Closed THEN Closed /\ UNCHANGED over ELSE Bad)
        /\ UNCHANGED <<net, buf, ring, h, t, back, nm, sess, shut, out, pcs>>
Halt == run = "on" /\ Stop /\ UNCHANGED imp
Quit == /\ pc = "down" /\ run = "stopping" /\ pc' = "off" /\ Stopped /\ UNCHANGED <<net, buf, ring, h, t, back, nm, sess, shut, out, over, pcs>>
GiveUp == pc = "asking" /\ run # "on" /\ pc' = "down" /\ UNCHANGED <<wvars, net, buf, ring, h, t, back, nm, sess, shut, out, over, pcs>>
MNext == \/ \E s \in Subs : Sub(s) \/ Put(s) \/ Ret(s)
         \/ Answer \/ Shake \/ Say \/ Prod \/ Bye \/ Half \/ Hear \/ Part
         \/ Connect \/ Read \/ Welcome \/ Opened \/ Take \/ Write \/ Hung \/ Gone \/ Halt \/ Quit \/ GiveUp
Fair == /\ WF_mvars(Hear) /\ WF_mvars(Read) /\ WF_mvars(Welcome) /\ WF_mvars(Opened) /\ WF_mvars(Take) /\ SF_mvars(Write) /\ WF_mvars(Hung) /\ WF_mvars(Gone)
        /\ WF_mvars(Quit) /\ WF_mvars(GiveUp) /\ \A s \in Subs : WF_mvars(Put(s)) /\ WF_mvars(Ret(s))
MSpec == MInit /\ [][MNext]_mvars /\ Fair
Good == ~over /\ WInv
\* with nothing on its way and nothing to be done, all is done
Idle == pc = "open" /\ net = <<>> /\ back = <<>> /\ h = t /\ ~shut /\ run = "on" /\ ending = {} /\ \A s \in Subs : pcs[s] \in {"idle", "over"}
Done == Idle => ENABLED Settled
Ends == (run = "stopping") ~> (run = "off")
Comes == \A s \in Subs : (pcs[s] = "over" /\ subs[s].st = "ok" /\ conn = "open") ~> (subs[s].st # "ok" \/ ending # {} \/ run # "on" \/ subs[s].old)
NeverFull == \A s \in Subs : pcs[s] # "no"
NeverAgain == ~(sess = 2 /\ conn = "open" /\ dl > 0)
NeverPart == ~(pc = "open" /\ Len(buf) = 1 /\ t # h)
NeverRest == ~(pc = "opening" /\ Len(buf) >= 2)
===========================================================================
