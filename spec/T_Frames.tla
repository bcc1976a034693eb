----------------------------- MODULE T_Frames -----------------------------
EXTENDS Frames, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ FInit
TStep ==
    \/ Is("open") /\ Open
    \/ Is("p") /\ Sent(<<E[2], E[3]>>)
    \/ Is("bad") /\ Bad
    \/ Is("gone") /\ Gone
    \/ Is("d") /\ Deliver(<<E[2], E[3]>>)
    \* the other side lets go before its peer does only when it cannot understand it
    \/ Is("dropped") /\ fate = "bad" /\ UNCHANGED fvars
    \/ Is("fail") /\ Failed
    \* the other side closes a connection that has come to its end, having taken everything from it
    \/ Is("closed") /\ E[2] = 1 /\ fate # "open" /\ Drained /\ UNCHANGED fvars
    \/ Is("quiet") /\ Drained /\ UNCHANGED fvars
    \/ Is("off") /\ E[2] = 1 /\ Off
    \/ Is("fds") /\ E[2] = 0 /\ UNCHANGED fvars
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, fvars>>
TSpec == TInit /\ [][TStep]_<<tr, l, fvars>>
Diag == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
