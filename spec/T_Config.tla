----------------------------- MODULE T_Config -----------------------------
EXTENDS Config, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ CInit(Traces[tr].cf.depth, Traces[tr].cf.threads, 1000)
TStep ==
    \/ Is("c") /\ Call(E[2], E[3])
    \/ Is("P") /\ \E t \in DOMAIN op : Append1(t) /\ cur' = E[2] /\ ring'[cur'].id = E[3] /\ ring'[cur'].e = E[4]
    \/ Is("r") /\ Return(E[2]) /\ E[3] = ring[cur].id
    \/ Is("N") /\ E[2] = cur /\ (\A t \in DOMAIN op : op[t] = <<>>) /\ UNCHANGED cvars
    \/ Is("L") /\ (\A t \in DOMAIN op : op[t] = <<>>) /\ E[3] = Find(E[2]) /\ UNCHANGED cvars
    \/ l <= Len(Ev) /\ E[1] = "end" /\ l' = l + 1 /\ UNCHANGED <<tr, cvars>>
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, cvars>>
TSpec == TInit /\ [][TStep]_<<tr, l, cvars>>
Diag == CInv /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
