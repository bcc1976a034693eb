--------------------------- MODULE MC_PulsePipe ---------------------------
(* PulsePipe closed with a feeder, workers, a reader and a small ring. Worker of pulse n is
   n % Workers; each works on its own pulses in order. *)
EXTENDS PulsePipe
CONSTANTS N, Depth, Workers, Groups
Conf == [depth |-> Depth - 1, groups |-> Groups, fc |-> [g \in 1..Groups |-> g], base |-> 0,
         blind |-> [g \in 1..Groups |-> g], reader |-> TRUE, stride |-> 2]
W(n) == n % Workers
First(n) == \A k \in DOMAIN ph : (k < n /\ W(k) = W(n)) => ph[k] \in {"done", "gone"}
Init == PInit(Conf)
Next ==
    \/ fed < N /\ fed + 1 - Depth \notin DOMAIN ph /\ (\A k \in DOMAIN ph : k > fed + 1 - Depth) /\ Feed(fed + 1, 9)
    \/ Inspect(insp + 1)
    \/ \E n \in DOMAIN ph :
         \/ First(n) /\ n <= insp /\
              \/ \E j \in 0..(Groups - 1) : Compress(n, Gid(n), j, 10 * Gid(n) + j)
              \/ Compressed(n)
              \/ Skipped(n)
              \/ DownSampled(n)
              \/ Phase(n) = "down" /\ LET grp == IF cc[n] = 1 THEN Gid(n) ELSE 0
                                          g == gc[n] + 1 - cf.blind[grp + 1] IN Process(n, g, CeilDiv(g, 2))
         \/ Phase(n) = "done" /\ (IF W(n) \in DOMAIN wl THEN wl[W(n)] # fed - n ELSE TRUE) /\ (\A k \in DOMAIN ph : (k > n /\ W(k) = W(n)) => ph[k] # "done") /\ Lag(W(n), fed - n)
         \/ Vacate(n)
    \/ Read(nread + 1)
    \/ Got(ngot + 1)
Spec == Init /\ [][Next]_pvars /\ WF_pvars(Next)
\* every pulse is compressed by all filters of its group or skipped, and read once
OnceEach == \A n \in DOMAIN ph : cc[n] <= Groups
RingHolds == Cardinality(DOMAIN ph) <= Depth
SkipOnlyBehind == (\E n \in DOMAIN ph : ph[n] = "skip") => (\E n \in 0..N : Behind(n))
AllRead == <>[](ngot = N)
\* vacuity: these must be reachable (checked as violated invariants)
NoSkip == \A n \in DOMAIN ph : ph[n] # "skip"
===========================================================================
