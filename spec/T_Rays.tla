----------------------------- MODULE T_Rays -----------------------------
EXTENDS Rays, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ RInit(Traces[tr].cf)
Label(x) == [saz |-> x[6][1], eaz |-> x[6][2], sel |-> x[6][3], eel |-> x[6][4], pc |-> x[7], marker |-> x[8], proc |-> x[9],
             skip |-> x[10], cfg |-> x[11], gates |-> x[12], swel |-> x[13], used |-> x[14], first |-> x[15], last |-> x[16]]
TStep ==
    \/ Is("F") /\ Feed(E[2], [cell |-> E[3], az |-> E[4], el |-> E[5], m |-> E[6], comp |-> E[7], cfg |-> E[8], gates |-> E[9]])
    \/ Is("R") /\ Ready(E[2], E[3], E[4], E[5], Label(E))
    \/ Is("X") /\ Count(E[2])
    \/ Is("K") /\ Read(E[2])
    \/ Is("G") /\ Got(E[2])
    \/ Is("V") /\ Vacate(E[2])
    \/ Is("E") /\ Settled(E[2], E[3], E[4]) /\ UNCHANGED rvars
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, rvars>>
TSpec == TInit /\ [][TStep]_<<tr, l, rvars>>
Diag == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
========================================================================
