------------------------------ MODULE T_Files ------------------------------
EXTENDS Files, Sequences, TLC, Json, IOUtils
VARIABLES op,                     \* of every thread: what it is adding, and whether that is done
          closing,                \* the manager is being stopped
          tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Cf == Traces[tr].cf
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
None == [f |-> 0, k |-> 0, done |-> FALSE]
Ratio == <<8, 5, 1>>
\* a limit of its own, or its share of the total (in so many units)
Share(cf, k) == IF cf.own[k] > 0 THEN cf.own[k] ELSE (cf.total * Ratio[k]) \div 14
TInit ==
    /\ tr \in 1..Len(Traces) /\ l = 1 /\ FInit([k \in Kinds |-> Share(Traces[tr].cf, k)], Traces[tr].cf.age)
    /\ op = [t \in 0..3 |-> None] /\ closing = FALSE
xvars == <<op, closing>>
X == UNCHANGED xvars
Unless == UNCHANGED <<fvars, xvars>>
TStep ==
    \/ Is("C") /\ Create(E[2], E[3], E[4], E[5], E[6], E[7]) /\ X
    \* many of kind 1 to begin with
    \/ Is("B") /\ info' = [n \in 1..Len(E[2]) |-> [k |-> 1, t |-> E[2][n][1], ours |-> TRUE, d |-> E[2][n][2]]]
       /\ size' = [n \in 1..Len(E[2]) |-> E[2][n][3]] /\ disk' = 1..Len(E[2]) /\ dirs' = {<<1, E[2][n][2]>> : n \in 1..Len(E[2])}
       /\ rec' = [n \in 1..Len(E[2]) |-> -1] /\ UNCHANGED <<limit, maxAge, usage, st, gone, known, last>> /\ X
    \/ Is("w") /\ Grow(E[2], E[3]) /\ X
    \/ Is("v") /\ Vanish(E[2]) /\ X
    \/ Is("s") /\ Begin /\ closing' = FALSE /\ UNCHANGED op
    \/ Is("S") /\ (\A k \in Kinds : st[k] = "on") /\ Unless
    \/ Is("p") /\ closing' = TRUE /\ UNCHANGED <<fvars, op>>
    \/ Is("P") /\ Stop /\ closing' = FALSE /\ UNCHANGED op
    \/ Is("D") /\ E[2] \in 1..Len(info) /\ (Remove(E[2], info[E[2]].k) \/ RemoveLog(E[2])) /\ X
    \/ Is("F") /\ RemoveDir(E[2], E[3]) /\ X
    \/ Is("a") /\ op[E[2]] = None /\ op' = [op EXCEPT ![E[2]] = [f |-> E[3], k |-> E[4], done |-> FALSE]] /\ UNCHANGED <<fvars, closing>>
    \/ /\ Is("A") /\ op' = [op EXCEPT ![E[2]] = None] /\ UNCHANGED <<fvars, closing>>
       /\ LET o == op[E[2]] IN IF E[3] = 0 THEN o.done ELSE ~o.done /\ (closing \/ ~Acceptable(o.f, o.k))
    \* at rest: what is there, exactly
    \/ Is("L") /\ {E[2][n] : n \in 1..Len(E[2])} = disk /\ (\A k \in Kinds : Settled(k)) /\ Unless
    \* and no logs that are too old
    \/ Is("G") /\ (\A f \in disk : info[f].k = 4 /\ info[f].ours => info[f].t < maxAge) /\ Unless
    \* an addition takes place when it matters, or at its end
    \/ /\ l <= Len(Ev) /\ E[1] \in {"A", "D"} /\ UNCHANGED <<tr, l, closing>>
       /\ \E t \in DOMAIN op :
            /\ op[t].f # 0 /\ ~op[t].done /\ (E[1] = "A" => E[2] = t /\ E[3] = 0)
            /\ Add(op[t].f, op[t].k) /\ op' = [op EXCEPT ![t].done = TRUE]
    \* the folders are listed
    \/ l <= Len(Ev) /\ E[1] \in {"S", "D", "A", "F", "p"} /\ (\E k \in Kinds : Boot(k) /\ \A m \in Kinds : m < k => st[m] # "boot") /\ UNCHANGED <<tr, l>> /\ X
    \/ l <= Len(Ev) /\ E[1] = "end" /\ l' = l + 1 /\ E[2] = 1 /\ UNCHANGED <<tr, fvars, xvars>>
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, fvars, xvars>>
TSpec == TInit /\ [][TStep]_<<tr, l, fvars, xvars>>
Diag == NoneForgotten /\ NothingElse /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
============================================================================
