----------------------------- MODULE T_Health -----------------------------
EXTENDS Health, TLC, Json, IOUtils
VARIABLES tr, l, call, nj, pj, part, noteAt, lt, lastO, ol, oc
tv == <<tr, l, call, nj, pj, part, noteAt, lt, lastO, ol, oc>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Cf == Traces[tr].cf
Ev == Traces[tr].ev
E == Ev[l]
T(k) == IF k < 1 THEN 0 ELSE IF k > Len(Ev) \/ Ev[k][1] = "end" THEN 1000000000 ELSE Ev[k][2]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
\* call[j]: none, "b" (has asked for a slot), "v" (it has been taken), "c" (is about to be ready), "d" (is ready)
TInit == /\ tr \in 1..Len(Traces) /\ l = 1
         /\ HInit(Cf.n, Cf.d, <<Cf.h, Cf.lat, Cf.lon>>)
         /\ call = [j \in 1..Cf.n |-> <<"none", 0>>]
         /\ nj = {} /\ pj = {} /\ part = [j \in 1..Cf.n |-> <<>>] /\ noteAt = 0 /\ lt = 0 /\ lastO = 0 /\ ol = 0 /\ oc = 0
\* ---- steps of the engine. They are not seen. It notes and looks node by node ----
N == Cf.n
LateNow == T(l) - noteAt >= 900
\* what record is next in the trace
\* (which may be later than the next event; ol: where the record made last is)
RECURSIVE FirstO(_)
FirstO(k) == IF k > Len(Ev) \/ Ev[k][1] = "o" THEN k ELSE FirstO(k + 1)
NextO == FirstO(ol + 1)
\* only what leads to the next record: the report shown as new is the next one to begin, the one shown as old is the last or the one before
Leads(j, y) == \/ y = <<>>
               \/ y # <<>> /\ y[2] /\ y[1] = node[j].n + 1
               \/ y # <<>> /\ y[3] /\ y[1] \in {node[j].n, node[j].n - 1}
AllLead(S) == LET k == NextO IN k <= Len(Ev) /\ \A j \in S : Leads(j, Ev[k][5][j])
Begin == nj # {} \/ \E j \in Nodes : noted[j] # node[j].idx
NoteOne(j) == /\ phase = "idle" /\ j \notin nj /\ Begin /\ AllLead({j})
              /\ noted' = [noted EXCEPT ![j] = node[j].idx]
              /\ IF nj \cup {j} = 1..N THEN phase' = "wait" /\ nj' = {} /\ noteAt' = T(l - 1) ELSE nj' = nj \cup {j} /\ UNCHANGED <<phase, noteAt>>
              /\ UNCHANGED <<node, late, pos, made, rec, tr, l, call, pj, part, lt, lastO, ol, oc>>
Fits(n, e) ==
    /\ \A j \in 1..N : LET x == n[j] y == e[5][j] IN
         IF x = <<>> THEN y = <<>> ELSE y # <<>> /\ y[1] = x[1].rep /\ (IF x[1].old THEN y[3] ELSE y[2])
    /\ LET g == Reading(n) IN
       /\ e[6] = (IF g.hok THEN 0 ELSE 1) /\ e[7] = (IF g.pok THEN 0 ELSE 1)
       /\ (~g.hok => e[8] = pos.h) /\ (~g.pok => e[9] = pos.lat /\ e[10] = pos.lon)
    /\ e[3] = made % Cf.d /\ e[11] = ""
Emit(n) ==
    LET k == NextO g == Reading(n) IN
    /\ k <= Len(Ev) /\ Ev[k][1] = "o" /\ Fits(n, Ev[k])
    /\ rec' = [n |-> n, hov |-> ~g.hok, pov |-> ~g.pok, h |-> pos.h, lat |-> pos.lat, lon |-> pos.lon]
    /\ pos' = Place(pos, g)
    /\ node' = [j \in Nodes |-> IF n[j] # <<>> /\ ~n[j][1].old THEN [node[j] EXCEPT !.ring[noted[j]].st = "used"] ELSE node[j]]
    /\ made' = made + 1 /\ phase' = "idle" /\ ol' = k /\ noteAt' = 0 /\ UNCHANGED late
    \* (the report of the first node was used: it has moved on, and the next round begins in any case)
    /\ noted' = IF node[1].act THEN [j \in Nodes |-> -1] ELSE noted
CanPick(j) == ~node[j].act \/ Awaited(j).st = "ready" \/ (LateNow /\ j # 1)
Suits(q, y) == IF q = <<>> THEN y = <<>> ELSE y # <<>> /\ y[1] = q[1].rep /\ (IF q[1].old THEN y[3] ELSE y[2])
\* what can be taken now for the next record is taken: doing so later makes no difference to what may follow
Now(j) == LET k == NextO IN j \notin pj /\ CanPick(j) /\ k <= Len(Ev) /\ Suits(Part(j), Ev[k][5][j])
Pick == LET S == {j \in 1..N : Now(j)} IN
        /\ part' = [j \in 1..N |-> IF j \in S THEN Part(j) ELSE part[j]] /\ pj' = pj \cup S
        /\ UNCHANGED <<hv, tr, l, call, nj, noteAt, lt, lastO, ol, oc>>
CombinePicked == /\ Emit(part) /\ pj' = {} /\ part' = [j \in 1..N |-> <<>>] /\ UNCHANGED <<tr, l, call, nj, lt, lastO, oc>>
Soon == phase = "wait" /\ (pj = 1..N \/ \E j \in 1..N : Now(j))
Gap == <<nj, pj, part, noteAt, lt, lastO, ol, oc>>
Step ==
    \/ \E j \in 1..N : NoteOne(j)
    \* a source asks for a slot, the slot is taken, the answer
    \/ Is("b") /\ call[E[3]][1] = "none" /\ call' = [call EXCEPT ![E[3]] = <<"b", l>>] /\ UNCHANGED <<hv, Gap>>
    \/ l <= Len(Ev) /\ (\E j \in 1..N : call[j][1] = "b" /\ call' = [call EXCEPT ![j] = <<"v", 0>>]
          /\ LET b == call[j][2] IN
             Take(j, [hok |-> Ev[b][4], h |-> Ev[b][5], pok |-> Ev[b][6], lat |-> Ev[b][7], lon |-> Ev[b][8]])) /\ UNCHANGED <<tr, l, Gap>>
    \/ Is("v") /\ call[E[3]][1] = "v" /\ E[4] = node[E[3]].at /\ UNCHANGED <<hv, Gap, call>>
    \/ Is("c") /\ call[E[3]][1] = "v" /\ call' = [call EXCEPT ![E[3]] = <<"c", 0>>] /\ UNCHANGED <<hv, Gap>>
    \/ l <= Len(Ev) /\ (\E j \in 1..N : call[j][1] = "c" /\ call' = [call EXCEPT ![j] = <<"d", 0>>] /\ Ready(j)) /\ UNCHANGED <<tr, l, Gap>>
    \/ Is("d") /\ call[E[3]][1] = "d" /\ call' = [call EXCEPT ![E[3]] = <<"none", 0>>] /\ UNCHANGED <<hv, Gap>>
    \* a record is seen
    \/ Is("o") /\ oc < made /\ oc' = oc + 1
       /\ E[4] >= lt /\ E[4] * 1000 <= E[2] + 1000 /\ E[4] * 1000 + 4000 >= lastO
       /\ lt' = E[4] /\ lastO' = T(l - 1)
       /\ UNCHANGED <<hv, call, nj, pj, part, noteAt, ol>>
    \/ l <= Len(Ev) /\ E[1] = "end" /\ E[2] = "ok" /\ l' = l + 1 /\ UNCHANGED <<tr, hv, call, Gap>>
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, hv, call, Gap>>
\* a slot that is to be shown as new is noted as soon as it can be
SoonNoted(j) == phase = "idle" /\ j \notin nj /\ Begin
                /\ LET k == NextO IN k <= Len(Ev) /\ LET y == Ev[k][5][j] IN y # <<>> /\ y[2] /\ ~y[3] /\ y[1] = node[j].n + 1
TStep == IF \E j \in 1..N : SoonNoted(j) THEN NoteOne(CHOOSE j \in 1..N : SoonNoted(j))
         ELSE IF Soon THEN (IF pj = 1..N THEN CombinePicked ELSE Pick)
         ELSE Step
TSpec == TInit /\ [][TStep]_<<hv, tv>>
Diag == Whole /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
===========================================================================
