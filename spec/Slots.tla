------------------------------- MODULE Slots -------------------------------
(* The rings of a radar and how their slots are handed out.                  *)
(*                                                                           *)
(* A ring of depth d hands out its slots in turn.  Each request makes the    *)
(* identity of its slot grow by d, so that identities count the requests and *)
(* identity modulo d is the slot.  Ahead of the slot a request leaves one    *)
(* vacant, so that who walks behind never takes an old entry for a new one.  *)
(* Marks are what happens to an entry once handed out: 1 in work, 2 finished *)
(* (of the kind the latest-entry lookup looks for).                          *)
(*                                                                           *)
(* kinds: "pulse", "ray": a request takes the slot at the index              *)
(*        "position"    : a request looks at the index, done advances it     *)
(*        "node"        : (health of a node) as pulse, the next one vacated  *)
(*        "status"      : as node                                            *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES ring, out            \* the rings by name; the effect of the last operation: slots it may have written to

Fresh(kind, d) == [kind |-> kind, d |-> d, idx |-> 0, open |-> FALSE, id |-> [k \in 1..d |-> k - 1 - d], st |-> [k \in 1..d |-> 0]]
Ahead(kind, d) == IF kind \in {"pulse", "position"} THEN d \div 8 ELSE IF kind \in {"node", "status"} THEN 1 ELSE 0

\* slots count from 0, the sequences from 1
Id(r, k) == r.id[k + 1]
St(r, k) == r.st[k + 1]
Next(r, k, n) == (k + n) % r.d

\* a request: [ring after, slot, slots written]
Asked(r) ==
    LET k == r.idx
        a == Next(r, k, Ahead(r.kind, r.d))
        clr == IF r.kind \in {"node", "status"} THEN {a} ELSE {k, a}
    IN [r |-> [r EXCEPT !.id[k + 1] = @ + r.d,
                        !.st = [j \in 1..r.d |-> IF j - 1 \in clr THEN 0 ELSE @[j]],
                        !.idx = IF r.kind = "position" THEN @ ELSE Next(r, @, 1),
                        !.open = (r.kind = "position")],
        k |-> k, w |-> {k, a}]
Done(r) == [r EXCEPT !.st[r.idx + 1] = 2, !.idx = Next(r, @, 1), !.open = FALSE]
Marked(r, k, s) == [r EXCEPT !.st[k + 1] = s]

\* how many requests there have been
Count(r) == LET top == CHOOSE k \in 1..r.d : \A j \in 1..r.d : r.id[j] <= r.id[k] IN r.id[top] + 1
\* the slots that are neither vacated ahead nor about to be: what a user may still mark
Recent(r) == LET n == Count(r) IN {i % r.d : i \in {j \in (n - r.d + Ahead(r.kind, r.d) + 1)..(n - 1) : j >= 0}}
\* newest finished entry, -1 if there is none
Finished(r) == {k \in 0..(r.d - 1) : St(r, k) = 2}
Latest(r) == IF Finished(r) = {} THEN -1 ELSE CHOOSE k \in Finished(r) : \A j \in Finished(r) : Id(r, j) <= Id(r, k)

SlotInit(kinds, ds) == ring = [x \in DOMAIN kinds |-> Fresh(kinds[x], ds[x])] /\ out = {}
Request(x) == /\ ~ring[x].open
              /\ LET q == Asked(ring[x]) IN ring' = [ring EXCEPT ![x] = q.r] /\ out' = q.w
Finish(x) == ring[x].kind = "position" /\ ring[x].open /\ ring' = [ring EXCEPT ![x] = Done(@)] /\ out' = {ring[x].idx}
Mark(x, k, s) == /\ IF ring[x].open /\ k = ring[x].idx THEN s = 1 ELSE k \in Recent(ring[x])
                 /\ ring' = [ring EXCEPT ![x] = Marked(@, k, s)] /\ out' = {k}
Clear(x) == ring' = [ring EXCEPT ![x] = Fresh(@.kind, @.d)] /\ out' = 0..(ring[x].d - 1)

\* ---------------------------------------------------------------- properties
\* the ring holds the last d identities, each in its own slot
Consecutive == \A x \in DOMAIN ring : LET r == ring[x] n == Count(r) IN
    /\ {r.id[k] : k \in 1..r.d} = (n - r.d)..(n - 1)
    /\ \A k \in 0..(r.d - 1) : Id(r, k) >= 0 => Id(r, k) % r.d = k
    /\ r.idx = (IF r.open THEN n - 1 ELSE n) % r.d
\* the slot that the next request hands out has nothing of its last round left to say
NextIsVacant == \A x \in DOMAIN ring : LET r == ring[x] IN
    ~r.open /\ r.kind # "ray" /\ r.d > 8 => St(r, r.idx) = 0
\* a request writes to nothing of the recent entries
KeepsRecent == [][\A x \in DOMAIN ring : LET r == ring[x] q == ring'[x] IN
    q # r /\ Count(q) = Count(r) + 1 =>
        /\ \A k \in Recent(r) : Id(q, k) > Count(r) - r.d + Ahead(r.kind, r.d) => St(q, k) = St(r, k) /\ Id(q, k) = Id(r, k)
        /\ Id(q, r.idx) = Count(r) /\ St(q, r.idx) = 0]_<<ring, out>>
=============================================================================
