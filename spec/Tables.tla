------------------------------ MODULE Tables ------------------------------
(* The tables of controls ("C") and waveform calibrations ("W") of a radar.                                *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES tab     \* table -> [cap, n : how many are in use, e : slot -> content, uid : slot -> identity, given : the last identity given]
Names == {"C", "W"}
Nothing == <<"", 0, "", 0>>
Min2(a, b) == IF a < b THEN a ELSE b
\* label and command (name and value of a calibration), as text and length, cut at the size of the field
LabelCap == 127
CommandCap == 511
Cut(x, e) == IF x = "C" THEN <<e[1], Min2(e[2], LabelCap), e[3], Min2(e[4], CommandCap)>> ELSE e
TabInit(cc, cw) == tab = [x \in Names |-> LET c == IF x = "C" THEN cc ELSE cw IN
    [cap |-> c, n |-> 0, e |-> [s \in 0..c - 1 |-> Nothing], uid |-> [s \in 0..c - 1 |-> s - c], given |-> -1]]
Room(x) == tab[x].n < tab[x].cap
\* a calibration comes with the identity its sender gave it, until the set is concluded
Own(x, s, e) == IF x = "W" THEN [tab[x].uid EXCEPT ![s] = -1000 - e[4]] ELSE tab[x].uid
Add(x, e) == tab' = IF Room(x) THEN [tab EXCEPT ![x].n = @ + 1, ![x].e[tab[x].n] = Cut(x, e), ![x].uid = Own(x, tab[x].n, e)] ELSE tab
Update(x, s, e) == tab' = IF s < tab[x].cap THEN [tab EXCEPT ![x].e[s] = Cut(x, e), ![x].uid = Own(x, s, e)] ELSE tab
Clear(x) == tab' = [tab EXCEPT ![x].n = 0, ![x].e = IF x = "C" THEN [s \in DOMAIN @ |-> Nothing] ELSE @]
\* new identities, in order, never given before
Conclude(x) == tab' = [tab EXCEPT ![x].uid = [s \in DOMAIN @ |-> IF s < tab[x].n THEN tab[x].given + 1 + s ELSE @[s]], ![x].given = @ + tab[x].n]
\* what is shown to the users: the controls up to the first without a label
Shown == {s \in 0..tab["C"].n - 1 : \A q \in 0..s : tab["C"].e[q][2] > 0}
TabInv == \A x \in Names : /\ tab[x].n \in 0..tab[x].cap
                           /\ \A s, q \in DOMAIN tab[x].uid : x = "C" /\ tab[x].uid[s] = tab[x].uid[q] => s = q
===========================================================================
