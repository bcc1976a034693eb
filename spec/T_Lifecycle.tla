--------------------------- MODULE T_Lifecycle ---------------------------
EXTENDS Lifecycle, Sequences, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ LInit
TStep ==
    \/ Is("s") /\ StartCall /\ UNCHANGED threads
    \* result, flags as they should be, threads alive
    \/ Is("S") /\ E[2] = 0 /\ phase = "starting" /\ E[3] = 1 /\ E[4] > 0 /\ phase' = "on" /\ threads' = E[4] /\ UNCHANGED <<fed, done>>
    \/ Is("F") /\ fed' = fed + E[2] /\ UNCHANGED <<phase, threads, done>> /\ phase # "starting"
    \* with nothing in the way, all that was given is dealt with; flags as they should be
    \/ Is("W") /\ phase = "on" /\ E[2] = fed /\ E[3] = 1 /\ done' = fed /\ UNCHANGED <<phase, threads, fed>>
    \/ Is("p") /\ StopCall
    \* result, flags clean, threads left, milliseconds it took
    \/ Is("P") /\ E[2] = 0 /\ phase = "stopping" /\ E[3] = 1 /\ E[4] = 0 /\ E[5] <= Traces[tr].cf.limit /\ phase' = "off" /\ threads' = 0 /\ UNCHANGED <<fed, done>>
    \* a second stop
    \/ Is("x") /\ StopAgain(E[2] = 1 /\ E[3] = 1 /\ E[4] = 0)
    \* what others may see has not changed
    \/ Is("Q") /\ phase = "off" /\ E[2] = 0 /\ UNCHANGED lvars
    \/ Is("end") /\ phase = "off" /\ E[2] = 1 /\ UNCHANGED lvars
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, lvars>>
TSpec == TInit /\ [][TStep]_<<tr, l, lvars>>
Diag == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
