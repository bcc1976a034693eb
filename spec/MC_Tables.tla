----------------------------- MODULE MC_Tables -----------------------------
(* All histories over small tables; ghost: the list as a user would keep it. *)
EXTENDS Tables, TLC
CONSTANTS Cap, MaxOps
VARIABLES list, k
mvars == <<tab, list, k>>
E1 == {<<"a", 1, "x", 1>>, <<"b", 200, "y", 600>>, <<"", 0, "z", 1>>}
MInit == TabInit(Cap, Cap) /\ list = [x \in Names |-> <<>>] /\ k = 0
Step == k < MaxOps /\ k' = k + 1
MNext == /\ Step
         /\ \E x \in Names :
            \/ \E e \in E1 : Add(x, e) /\ list' = IF Len(list[x]) < Cap THEN [list EXCEPT ![x] = Append(@, Cut(x, e))] ELSE list
            \/ \E e \in E1, s \in 0..Cap : Update(x, s, e) /\ list' = IF s < Len(list[x]) THEN [list EXCEPT ![x][s + 1] = Cut(x, e)] ELSE list
            \/ Clear(x) /\ list' = [list EXCEPT ![x] = <<>>]
            \/ Conclude(x) /\ UNCHANGED list
MSpec == MInit /\ [][MNext]_mvars
\* identities given at a conclusion are all different and have never been given before
Fresh == [][\A x \in Names : tab'[x].given # tab[x].given =>
            \A s \in 0..tab[x].n - 1 : tab'[x].uid[s] > tab[x].given /\ \A q \in DOMAIN tab[x].uid : q # s => tab'[x].uid[q] # tab'[x].uid[s]]_mvars
Listed == \A x \in Names : tab[x].n = Len(list[x]) /\ \A s \in 1..Len(list[x]) : tab[x].e[s - 1] = list[x][s]
NoRefused == ~(tab["C"].n = Cap /\ tab["C"].given >= 1 /\ tab["W"].n = Cap)
===========================================================================
