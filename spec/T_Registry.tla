---------------------------- MODULE T_Registry ----------------------------
EXTENDS Registry, TLC, Json, IOUtils, SequencesExt
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ RInit(Traces[tr].cf.cap, Traces[tr].cf.threads)
\* what the thread's operation will return, found in the trace
Result(t) == LET n == CHOOSE n \in l..Len(Ev) : Ev[n][1] = "r" /\ Ev[n][2] = t /\ \A m \in l..n - 1 : ~(Ev[m][1] = "r" /\ Ev[m][2] = t) IN Ev[n][4]
\* effects are placed as late as possible: only when a return is about to happen
TStep ==
    \/ Is("c") /\ Call(E[2], E[3], E[4])
    \/ Is("r") /\ Return(E[2], E[3], E[4])
    \/ Is("Q") /\ {<<r.id, r.label>> : r \in reg} = {<<q[1], q[2]>> : q \in ToSet(E[2])} /\ Cardinality(reg) = Len(E[2]) /\ UNCHANGED rvars
    \/ /\ l <= Len(Ev) /\ E[1] = "r" /\ ~op[E[2]].done /\ UNCHANGED <<tr, l>>
       /\ \E t \in DOMAIN op : op[t].k # "-" /\ ~op[t].done /\ LET v == Result(t) IN
            Register(t, v) \/ Remove(t, v = 1) \/ Lookup(t, v) \/ (v = 0 /\ Complete(t))
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, rvars>>
TSpec == TInit /\ [][TStep]_<<tr, l, rvars>>
Diag == Inv /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
