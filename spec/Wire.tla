------------------------------- MODULE Wire -------------------------------
(* Sending on connections that take what they like of it: a call hands over a message (the bytes of a packet,      *)
(* 256 for a byte that may be anything), the network takes pieces of it, and the call returns.                     *)
EXTENDS Integers, Sequences
VARIABLES cut, pend
wvars == <<cut, pend>>
NoCall == [c |-> 0, msg |-> <<>>, sent |-> 0, idle |-> 0, worst |-> 0, hard |-> FALSE]
WInit(C, T) == cut = [c \in C |-> FALSE] /\ pend = [t \in T |-> NoCall]
Call(t, c, msg) == pend[t].c = 0 /\ pend' = [pend EXCEPT ![t] = [NoCall EXCEPT !.c = c, !.msg = msg]] /\ UNCHANGED cut
Partial(t) == 0 < pend[t].sent /\ pend[t].sent < Len(pend[t].msg)
\* one piece of the message goes out: the next bytes of it, with no other message under way on this connection, and none cut short before
Put(t, bytes) ==
    LET p == pend[t] IN
    /\ p.c # 0 /\ ~cut[p.c] /\ p.sent + Len(bytes) <= Len(p.msg)
    /\ \A u \in DOMAIN pend \ {t} : pend[u].c = p.c => ~Partial(u)
    /\ \A k \in 1..Len(bytes) : p.msg[p.sent + k] \in {256, bytes[k]}
    /\ pend' = [pend EXCEPT ![t].sent = @ + Len(bytes), ![t].idle = 0]
    /\ UNCHANGED cut
\* the network takes nothing this time
NoGo(t) == /\ pend[t].c # 0 /\ pend' = [pend EXCEPT ![t].idle = @ + 1, ![t].worst = IF @ > pend[t].idle THEN @ ELSE pend[t].idle + 1]
           /\ UNCHANGED cut
Fail(t) == pend[t].c # 0 /\ pend' = [pend EXCEPT ![t].hard = TRUE] /\ UNCHANGED cut
\* success is claimed exactly when all went out; giving up needs a reason, and a message cut short is the last thing on its connection
Return(t, v, patience) ==
    LET p == pend[t] IN
    /\ p.c # 0 /\ pend' = [pend EXCEPT ![t] = NoCall]
    /\ IF v >= 0 THEN p.sent = Len(p.msg) /\ v = p.sent /\ UNCHANGED cut
       ELSE /\ p.sent < Len(p.msg) /\ (p.hard \/ p.worst >= patience)
            /\ cut' = [cut EXCEPT ![p.c] = @ \/ Partial(t)]
===========================================================================
