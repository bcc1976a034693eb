----------------------------- MODULE T_Tables -----------------------------
EXTENDS Tables, TLC, Json, IOUtils, SequencesExt
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ TabInit(Traces[tr].cf.cc, Traces[tr].cf.cw)
TStep ==
    \/ Is("A") /\ Add(E[2], E[3]) /\ tab'[E[2]].n = E[4]
    \/ Is("U") /\ Update(E[2], E[3], E[4]) /\ tab'[E[2]].n = E[5]
    \/ Is("Z") /\ Clear(E[2]) /\ tab'[E[2]].n = E[3]
    \/ Is("C") /\ Conclude(E[2]) /\ tab'[E[2]].n = E[3]
    \* all of one table: content and identity of each slot; and how much of the rest of the radar has changed
    \/ Is("D") /\ LET t == tab[E[2]] IN
          /\ E[3] = t.n /\ Len(E[4]) = t.cap
          /\ \A s \in 1..t.cap : E[4][s] = t.e[s - 1] /\ E[5][s] = t.uid[s - 1]
          /\ E[6] = 0
       /\ UNCHANGED tab
    \* what is shown
    \/ Is("J") /\ Len(E[2]) = Cardinality(Shown) /\ (\A s \in 1..Len(E[2]) : E[2][s] = tab["C"].e[s - 1]) /\ UNCHANGED tab
    \/ l <= Len(Ev) /\ E[1] = "end" /\ l' = l + 1 /\ UNCHANGED <<tr, tab>>
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, tab>>
TSpec == TInit /\ [][TStep]_<<tr, l, tab>>
Diag == TabInv /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
