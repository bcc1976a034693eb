-------------------------- MODULE T_RingFilter --------------------------
EXTENDS RingFilter, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ RInit(Traces[tr].cf)
TStep ==
    \/ Is("A") /\ SetFilter(E[2] = 1, E[3], E[4])
    \/ Is("F") /\ Feed(E[2], E[3] = 1, E[4])
    \/ Is("I") /\ Inspect(E[2])
    \/ Is("O") /\ Finish(E[2], E[3] = 1, E[4] = 1, E[5])
    \/ Is("E") /\ Settled /\ UNCHANGED rvars
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, rvars>>
TNext == TStep /\ InOrder'
TSpec == TInit /\ [][TNext]_<<tr, l, rvars>>
Diag == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
