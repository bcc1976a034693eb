----------------------------- MODULE MC_Files ------------------------------
EXTENDS Files, TLC
CONSTANTS N, MaxT, Lim, Restarts, UseLogs
VARIABLES starts
vars == <<fvars, starts>>
Init == FInit([k \in Kinds |-> Lim], 1) /\ starts = 0
Day(t) == 1 + t \div 2
Free(n) == n > Len(info) \/ (n \notin disk /\ rec[n] < 0)
New == CHOOSE n \in 1..N + 1 : (n = N + 1 \/ Free(n)) /\ \A m \in 1..n - 1 : ~Free(m)
Keep == UNCHANGED starts
Next ==
    \/ New <= N /\ Keep /\ \E t \in 1..MaxT, s \in 1..2 : Create(New, 1, Day(t), t, TRUE, s)
    \/ New <= N /\ Keep /\ \E t \in 1..MaxT : Create(New, 1, Day(t), t, FALSE, 1)
    \/ UseLogs /\ New <= N /\ Keep /\ \E t \in 0..1, o \in BOOLEAN : Create(New, 4, 0, t, o, 1)
    \/ Keep /\ \E f \in disk : (size[f] = 1 /\ Grow(f, 2)) \/ (info[f].ours /\ Vanish(f))
    \/ starts < Restarts /\ Begin /\ starts' = starts + 1
    \/ Keep /\ Stop
    \/ Keep /\ \E f \in disk : Add(f, 1)
    \/ Keep /\ \E k \in Kinds : Boot(k)
    \/ Keep /\ \E f \in 1..Len(info) : Remove(f, 1) \/ RemoveLog(f)
    \/ Keep /\ \E x \in dirs : RemoveDir(x[1], x[2])
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(\E f \in 1..Len(info) : Remove(f, 1) /\ Keep) /\ WF_vars(\E f \in 1..Len(info) : RemoveLog(f) /\ Keep)
\* when nothing new comes any more
Comes == <>[][\A n \in disk' : n \in disk]_vars => []<>(st[1] # "on" \/ Settled(1))
NeverOldLeft == ~\E f \in gone : Of(1) # {}
===========================================================================
