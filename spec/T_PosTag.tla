---------------------------- MODULE T_PosTag ----------------------------
EXTENDS PosTag, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ PTInit(Traces[tr].cf)
TStep ==
    \/ Is("P") /\ Report(E[2], [t |-> E[3], az |-> E[4], el |-> E[5], f |-> E[6], saz |-> E[7], sel |-> E[8], vaz |-> E[9], vel |-> E[10]])
    \/ Is("F") /\ Feed(E[2], E[3], E[4], E[5])
    \/ Is("C") /\ Enter(E[2], E[3], [saz |-> E[4], sel |-> E[5], gates |-> E[6], size |-> E[7], marker |-> E[8], snr |-> E[9]])
    \/ Is("T") /\ Tag(E[2], [az |-> E[3], el |-> E[4], marker |-> E[5], cfg |-> E[6], vaz |-> E[7], vel |-> E[8], raw |-> <<E[9], E[10]>>])
    \/ Is("E") /\ E[2] = Len(pos) /\ Settled /\ UNCHANGED pvars
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, pvars>>
TSpec == TInit /\ [][TStep]_<<tr, l, pvars>>
Diag == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
