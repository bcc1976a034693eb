----------------------------- MODULE T_Queue -----------------------------
EXTENDS Queue, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ QInit(Traces[tr].cf.depth, 0..Traces[tr].cf.threads)
Result(t) == LET n == CHOOSE n \in l..Len(Ev) : Ev[n][1] = "r" /\ Ev[n][2] = t /\ \A m \in l..n - 1 : ~(Ev[m][1] = "r" /\ Ev[m][2] = t) IN Ev[n][3]
\* effects are placed as late as possible: only when a return is about to happen
TStep ==
    \/ Is("c") /\ Call(E[2], E[3], E[4])
    \/ Is("r") /\ Return(E[2], E[3])
    \* at rest: the counters of the queue agree with what is in it
    \/ Is("Q") /\ E[2] = Len(q) /\ E[3] - E[4] = Len(q) /\ UNCHANGED qvars
    \/ /\ l <= Len(Ev) /\ E[1] = "r" /\ ~op[E[2]].done /\ UNCHANGED <<tr, l>>
       /\ \E t \in DOMAIN op : op[t].k # "-" /\ ~op[t].done /\ (Push(t) \/ Pop(t)) /\ op'[t].ret = Result(t)
    \/ l <= Len(Ev) /\ E[1] = "end" /\ l' = l + 1 /\ E[2] = 1 /\ UNCHANGED <<tr, qvars>>
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, qvars>>
TSpec == TInit /\ [][TStep]_<<tr, l, qvars>>
Diag == QInv /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
