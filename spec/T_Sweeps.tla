---------------------------- MODULE T_Sweeps ----------------------------
EXTENDS Sweeps, TLC, Json, IOUtils, SequencesExt
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
Conf(c) == [c EXCEPT !.prods = [k \in 1..Len(c.prods) |-> [c.prods[k] EXCEPT !.list = ToSet(@)]]]
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ SInit(Conf(Traces[tr].cf))
TStep ==
    \/ Is("R") /\ Feed(E[2], E[3], E[4], E[5], E[6], ToSet(E[7]))
    \/ Is("X") /\ Flush
    \/ Is("K") /\ SetRecord(E[2])
    \/ Is("O") /\ Overview(E[2], E[3])
    \/ Is("W") /\ Write(E[2], [x |-> E[3], n |-> E[4], ok |-> E[5], g |-> E[6], st |-> E[7], en |-> E[8], ppi |-> E[9], rhi |-> E[10], conf |-> E[11]],
                        [kind |-> E[12], val |-> E[13], t |-> E[14], sym |-> E[15]])
    \/ Is("V") /\ Vacate(E[2], E[3])
    \/ Is("E") /\ Quiet /\ UNCHANGED svars
    \/ Is("S") /\ Stop(E[2])
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, svars>>
TSpec == TInit /\ [][TStep]_<<tr, l, svars>>
Diag == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
