-------------------------- MODULE MC_RingFilter --------------------------
(* The split-by-range implementation refines RingFilter: a watcher clears the done flags of a
   slot and wakes every worker; each worker filters its own gates of every pulse in
   turn with its own history; the watcher announces a pulse when all workers are done. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Depth, Workers, Gates
VARIABLES fed, k, j, data, posted, pos, done, wx, wy, st
vars == <<fed, k, j, data, posted, pos, done, wx, wy, st>>
Bc == <<1, 2>>
Ac == <<1, -1>>
In(n) == [g \in 1..(Gates + 1) |-> n * g]
W == 1..Workers
\* gate g belongs to worker
Owner(g) == ((g - 1) % Workers) + 1
Slot(n) == (n - 1) % Depth
Init ==
    /\ fed = 0 /\ k = 0 /\ j = 0
    /\ data = [s \in 0..(Depth - 1) |-> << >>]
    /\ posted = [w \in W |-> 0] /\ pos = [w \in W |-> 0]
    /\ done = [s \in 0..(Depth - 1) |-> [w \in W |-> FALSE]]
    /\ wx = [w \in W |-> << >>] /\ wy = [w \in W |-> << >>]
    /\ st = [s \in 0..(Depth - 1) |-> "vacant"]
Feed == /\ fed < N /\ fed - j < Depth - 1
        /\ fed' = fed + 1
        /\ data' = [data EXCEPT ![Slot(fed + 1)] = In(fed + 1)]
        /\ st' = [st EXCEPT ![Slot(fed + 1)] = "ready"]
        /\ UNCHANGED <<k, j, posted, pos, done, wx, wy>>
Inspect == /\ k < fed
           /\ k' = k + 1
           /\ st' = [st EXCEPT ![Slot(k + 1)] = "inspected"]
           /\ done' = [done EXCEPT ![Slot(k + 1)] = [w \in W |-> FALSE]]
           /\ posted' = [w \in W |-> posted[w] + 1]
           /\ UNCHANGED <<fed, j, data, pos, wx, wy>>
RECURSIVE Sum(_, _, _, _)
Sum(c, h, g, i) == IF i > Len(c) \/ i > Len(h) THEN 0 ELSE c[i] * h[i][g] + Sum(c, h, g, i + 1)
Work(w) ==
    /\ posted[w] > 0
    /\ posted' = [posted EXCEPT ![w] = @ - 1]
    /\ pos' = [pos EXCEPT ![w] = @ + 1]
    /\ LET s == Slot(pos[w] + 1)
           v == data[s]
           h == <<v>> \o wx[w]
           y == [g \in 1..Len(v) |-> IF g <= Gates /\ Owner(g) = w THEN Sum(Bc, h, g, 1) - Sum(Tail(Ac), wy[w], g, 1) ELSE v[g]]
       IN /\ data' = [data EXCEPT ![s] = y]
          /\ wx' = [wx EXCEPT ![w] = h] /\ wy' = [wy EXCEPT ![w] = <<y>> \o @]
          /\ done' = [done EXCEPT ![s][w] = TRUE]
    /\ UNCHANGED <<fed, k, j, st>>
Announce == /\ j < k /\ \A w \in W : done[Slot(j + 1)][w]
            /\ j' = j + 1
            /\ st' = [st EXCEPT ![Slot(j + 1)] = "out"]
            /\ UNCHANGED <<fed, k, data, posted, pos, done, wx, wy>>
Next == Feed \/ Inspect \/ (\E w \in W : Work(w)) \/ Announce
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the sequential reference
RECURSIVE Ref(_, _)
Ref(n, g) == IF n < 1 THEN 0 ELSE IF g > Gates THEN In(n)[g]
             ELSE Bc[1] * In(n)[g] + (IF n > 1 THEN Bc[2] * In(n - 1)[g] ELSE 0) - Ac[2] * Ref(n - 1, g)
Correct == \A n \in 1..N : (n <= j /\ n > fed - Depth /\ st[Slot(n)] = "out") => \A g \in 1..(Gates + 1) : data[Slot(n)][g] = Ref(n, g)
Order == j <= k /\ k <= fed
\* abstract view: the same steps are allowed by RingFilter
Abs == INSTANCE RingFilter WITH cf <- [gates |-> Gates], on <- TRUE, B <- Bc, A <- Ac, insp <- k, out <- j,
    x <- [n \in {m \in 1..N : m > j /\ m <= fed} |-> In(n)], skip <- [n \in {m \in 1..N : m > j /\ m <= fed} |-> FALSE],
    xs <- [i \in 1..(IF j > 8 THEN 8 ELSE j) |-> In(j + 1 - i)],
    ys <- [i \in 1..(IF j > 8 THEN 8 ELSE j) |-> [g \in 1..(Gates + 1) |-> Ref(j + 1 - i, g)]]
AbsNext == Abs!Feed(fed + 1, FALSE, In(fed + 1)) \/ Abs!Inspect(k + 1)
             \/ (j < k /\ Abs!Finish(j + 1, TRUE, FALSE, data[Slot(j + 1)]))
Refines == [][AbsNext]_<<fed, k, j>>
AllOut == <>[](j = N)
==========================================================================
