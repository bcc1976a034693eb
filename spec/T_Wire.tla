------------------------------ MODULE T_Wire ------------------------------
EXTENDS Wire, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ WInit({1, 2}, 1..7)
TStep ==
    \/ Is("c") /\ Call(E[2], E[3], E[4])
    \/ Is("w") /\ Put(E[2], E[3])
    \/ Is("n") /\ NoGo(E[2])
    \/ Is("f") /\ Fail(E[2])
    \/ Is("r") /\ Return(E[2], E[3], E[4])
    \/ Is("fds") /\ E[2] = 0 /\ UNCHANGED wvars
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, wvars>>
TSpec == TInit /\ [][TStep]_<<tr, l, wvars>>
Diag == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
