----------------------------- MODULE T_Server -----------------------------
EXTENDS Server, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ SInit(1..Traces[tr].cf.clients, 1..Traces[tr].cf.clients + 1, Traces[tr].cf.limit)
TStep ==
    \/ Is("conn") /\ Connect(E[2])
    \/ Is("busy") /\ Refused(E[2])
    \/ Is("noserver") /\ NoServer(E[2])
    \/ Is("line") /\ Line(E[2], E[3])
    \/ Is("leave") /\ Leave(E[2], E[3] = 1)
    \/ Is("silent") /\ Silent(E[2])
    \/ Is("w") /\ Welcome(E[2], E[3])
    \/ Is("b") /\ Begin(E[2], E[3], E[4])
    \/ Is("e") /\ End(E[2])
    \/ Is("hang") /\ Hang(E[2])
    \/ Is("got") /\ Got(E[2], E[3])
    \/ Is("t") /\ Term(E[2])
    \/ l <= Len(Ev) /\ E[1] = "settled" /\ (\E i \in DOMAIN cl : ~Finished(i) /\ Unseen(i)) /\ UNCHANGED <<tr, l>>
    \/ Is("settled") /\ Settled
    \/ Is("stop") /\ Stop
    \/ Is("stopped") /\ Stopped
    \/ Is("again") /\ Again
    \* after the server has stopped, all of its clients find the connection ended
    \/ Is("eof") /\ phase = "off" /\ E[2] = 1 /\ UNCHANGED svars
    \/ Is("fds") /\ E[2] = 0 /\ UNCHANGED svars
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, svars>>
TSpec == TInit /\ [][TStep]_<<tr, l, svars>>
Diag == SInv /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
