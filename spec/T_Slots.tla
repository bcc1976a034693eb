----------------------------- MODULE T_Slots -----------------------------
EXTENDS Slots, TLC, Json, IOUtils, SequencesExt
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
\* the rings of the radar by name: [kind, depth]
TInit == /\ tr \in 1..Len(Traces) /\ l = 1
         /\ LET c == Traces[tr].cf.rings IN SlotInit([x \in DOMAIN c |-> c[x][1]], [x \in DOMAIN c |-> c[x][2]])
\* which slots look different now, what identity and status they have; which slots have other content
Seen(x, changed, other) ==
    LET a == ring[x] b == ring'[x] d == a.d IN
    /\ {<<changed[j][1], changed[j][2], changed[j][3]>> : j \in 1..Len(changed)} =
       {<<k, Id(b, k), St(b, k)>> : k \in {k \in 0..(d - 1) : Id(a, k) # Id(b, k) \/ St(a, k) # St(b, k)}}
    /\ ToSet(other) \subseteq out'
TStep ==
    \* a slot is asked for: ring, slot, what changed, other content changed, in other rings too
    \/ Is("g") /\ E[3] = ring[E[2]].idx /\ Request(E[2]) /\ Seen(E[2], E[4], E[5]) /\ E[6] = 0
    \/ Is("f") /\ Finish(E[2]) /\ Seen(E[2], E[3], E[4]) /\ E[5] = 0
    \/ Is("m") /\ Mark(E[2], E[3], E[4]) /\ Seen(E[2], E[5], E[6]) /\ E[7] = 0
    \/ Is("z") /\ Clear(E[2]) /\ Seen(E[2], E[3], E[4]) /\ E[5] = 0
    \* the latest entry: the slot (-1 for none); the second form is told what to expect if there is none
    \/ Is("l") /\ (Latest(ring[E[2]]) >= 0 => E[3] = Latest(ring[E[2]])) /\ UNCHANGED <<ring, out>>
    \/ Is("n") /\ E[3] = Latest(ring[E[2]]) /\ UNCHANGED <<ring, out>>
    \* health looks at the last two slots handed out
    \/ Is("h") /\ (LET q == ring[E[2]] i == (q.idx + q.d - 1) % q.d j == (i + q.d - 1) % q.d IN
                   St(q, i) = 2 \/ St(q, j) = 2 => E[3] = Latest(q)) /\ UNCHANGED <<ring, out>>
    \/ l <= Len(Ev) /\ E[1] = "end" /\ l' = l + 1 /\ UNCHANGED <<tr, ring, out>>
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, ring, out>>
TSpec == TInit /\ [][TStep]_<<tr, l, ring, out>>
Diag == Consecutive /\ NextIsVacant /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
