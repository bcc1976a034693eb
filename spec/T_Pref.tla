------------------------------ MODULE T_Pref ------------------------------
EXTENDS Pref, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ PInit
TStep ==
    \* the file read: E[2] its lines, E[3] descriptors left open
    \/ Is("F") /\ Load(E[2]) /\ E[3] = 0
    \/ Is("X") /\ NoFile
    \/ Is("K") /\ Lookup(E[2]) /\ (IF Next(E[2]) = 0 THEN E[3] = 0 ELSE E[3] = 1 /\ E[4] = ents[idx'].kw /\ E[5] = ents[idx'].val)
    \/ Is("N") /\ E[3] = Count(E[2]) /\ UNCHANGED pvars
    \* a typed value: E[2] keyword, E[3] type, E[4] how many, E[5] 0 or 1 (had), E[6] what
    \/ Is("G") /\ Lookup(E[2]) /\ LET k == Next(E[2]) v == IF k = 0 THEN <<>> ELSE Typed(ents[k].val, E[3], E[4]) IN
          IF k # 0 /\ E[3] = 7 /\ OddCount(ents[k].val) THEN E[5] = 0 \/ E[6][2] <= 8
          ELSE IF v = <<>> THEN E[5] = 0 ELSE E[5] = 1 /\ E[6] = v[1]
    \/ l <= Len(Ev) /\ E[1] = "end" /\ l' = l + 1 /\ UNCHANGED <<tr, pvars>>
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, pvars>>
TSpec == TInit /\ [][TStep]_<<tr, l, pvars>>
Diag == PInv /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
