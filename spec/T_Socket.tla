----------------------------- MODULE T_Socket -----------------------------
EXTENDS Socket, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ WInit(1..Traces[tr].cf.subs, Traces[tr].cf.room)
TStep ==
    \/ Is("acc") /\ Acc
    \/ Is("hs") /\ Hs
    \/ Is("open") /\ Open
    \/ Is("closed") /\ Closed
    \/ Is("eof") /\ Eof
    \/ Is("deny") /\ End("deny")
    \/ Is("half") /\ End("half")
    \/ Is("shut") /\ End("shut")
    \/ Is("big") /\ End("big")
    \/ Is("pm") /\ Msg(E[2])
    \/ Is("d") /\ Deliver(E[2], E[3] = 1)
    \/ Is("pp") /\ Ping(E[2])
    \/ Is("pong") /\ Pong(E[2])
    \/ Is("pc") /\ Close
    \/ Is("cback") /\ E[2] = 1 /\ CloseBack
    \/ Is("sc") /\ Call(E[2])
    \/ Is("sr") /\ (IF E[3] = 1 THEN Return(E[2]) ELSE Refused(E[2], E[4] = 1))
    \/ Is("rx") /\ Receive(E[2], E[3] = 1)
    \/ Is("rx0") /\ (\E s \in DOMAIN subs : s % 7 = 0 /\ Receive(s, TRUE))
    \/ Is("settled") /\ Settled
    \/ Is("stop") /\ Stop
    \/ Is("stopped") /\ Stopped
    \/ Is("fds") /\ E[2] = 0 /\ UNCHANGED wvars
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, wvars>>
TSpec == TInit /\ [][TStep]_<<tr, l, wvars>>
Diag == WInv /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
