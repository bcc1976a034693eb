--------------------------- MODULE T_PulsePipe ---------------------------
EXTENDS PulsePipe, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr

TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ PInit(Traces[tr].cf)
TStep ==
    \/ Is("F") /\ Feed(E[2], E[3])
    \/ Is("I") /\ Inspect(E[2])
    \/ Is("Z") /\ Compress(E[2], E[3], E[4], E[5])
    \/ Is("C") /\ Compressed(E[2])
    \/ Is("S") /\ Skipped(E[2])
    \/ Is("D") /\ DownSampled(E[2])
    \/ Is("P") /\ Process(E[2], E[3], E[4])
    \/ Is("L") /\ Lag(E[2], E[3])
    \/ Is("G") /\ Got(E[2])
    \/ Is("R") /\ Read(E[2])
    \/ Is("V") /\ Vacate(E[2])
    \/ Is("E") /\ Settled /\ UNCHANGED pvars
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, pvars>>
TNext == TStep /\ InOrder' /\ ReadDone'
TSpec == TInit /\ [][TNext]_<<tr, l, pvars>>
Diag == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
