---------------------------- MODULE T_Streams -----------------------------
EXTENDS Streams, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ SInit
TStep ==
    \* a request string: what came out is what the reader says
    \/ Is("p") /\ LET p == Parse(E[2]) IN view' = p[1] /\ bits' = p[2] /\ E[3] = view' /\ ToSet(E[4]) = bits'
    \* a set rendered and read back: E[2], E[3] the set, E[4] the string, E[5] the length given
    \/ Is("s") /\ Rendered(E[2], ToSet(E[3]), E[4]) /\ E[5] = Len(E[4]) /\ UNCHANGED svars
    \/ l <= Len(Ev) /\ E[1] = "end" /\ l' = l + 1 /\ UNCHANGED <<tr, svars>>
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, svars>>
TSpec == TInit /\ [][TStep]_<<tr, l, svars>>
Diag == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
