----------------------------- MODULE MC_Config -----------------------------
(* The implementation seen through the specification: take the lock, copy the previous entry, apply the    *)
(* settings one at a time, publish. Locked = FALSE is a negative control.                                   *)
EXTENDS Config, TLC
CONSTANTS Depth, NT, MaxChg, Locked
VARIABLES lock, pc, work, iring, icur, n
mvars == <<cvars, lock, pc, work, iring, icur, n>>
SetList == {<<>>, <<<<"el", 1>>>>, <<<<"wf", 2>>, <<"cal", 2>>>>, <<<<"wf", 5>>, <<"el", 2>>>>, <<<<"wf", 1>>, <<"cal", 0>>>>, <<<<"vcp", "x", 600>>>>, <<<<"dual", 3, 4>>, <<"prf", 5>>>>}
MInit == /\ CInit(Depth, NT, 10) /\ lock = 0 /\ pc = [t \in 1..NT |-> "idle"] /\ work = [t \in 1..NT |-> <<>>]
         /\ iring = ring /\ icur = cur /\ n = 0
INext == (icur + 1) % depth
MCall(t) == /\ n < MaxChg /\ pc[t] = "idle" /\ \E ss \in SetList : Call(t, ss)
            /\ pc' = [pc EXCEPT ![t] = "want"] /\ n' = n + 1 /\ UNCHANGED <<lock, work, iring, icur>>
MLock(t) == /\ pc[t] = "want" /\ (Locked => lock = 0) /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "copy"] /\ UNCHANGED <<cvars, work, iring, icur, n>>
\* the slot being built is the oldest one; its identity is the ring length more than what it was
MCopy(t) == /\ pc[t] = "copy" /\ work' = [work EXCEPT ![t] = <<iring[INext].id + depth, INext, 1>>]
            /\ iring' = [iring EXCEPT ![INext] = iring[icur]] /\ pc' = [pc EXCEPT ![t] = "set"] /\ UNCHANGED <<cvars, lock, icur, n>>
MSet(t) == /\ pc[t] = "set" /\ work[t][3] <= Len(op[t].s)
           /\ iring' = [iring EXCEPT ![work[t][2]].e = Set1(@, op[t].s[work[t][3]])]
           /\ work' = [work EXCEPT ![t][3] = @ + 1] /\ UNCHANGED <<cvars, lock, pc, icur, n>>
MPub(t) == /\ pc[t] = "set" /\ work[t][3] > Len(op[t].s)
           /\ iring' = [iring EXCEPT ![work[t][2]].id = work[t][1]] /\ icur' = INext
           /\ Append1(t) /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<lock, work, n>>
MUnlock(t) == pc[t] = "unlock" /\ lock' = 0 /\ Return(t) /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<work, iring, icur, n>>
MNext2 == \E t \in 1..NT : MCall(t) \/ MLock(t) \/ MCopy(t) \/ MSet(t) \/ MPub(t) \/ MUnlock(t)
MSpec == MInit /\ [][MNext2]_mvars
\* what is published is what the specification says, and nothing older is ever touched
Old == {s \in 0..depth - 1 : s # (cur + 1) % depth}
Same == icur = cur /\ \A s \in Old : iring[s] = ring[s]
Able == \A t \in 1..NT : pc[t] \in {"copy", "set", "unlock"} => ENABLED (MCopy(t) \/ MSet(t) \/ MPub(t) \/ MUnlock(t))
NoWrap == ~(ring[cur].id >= 10 + Depth /\ ring[cur].e.wf = 1 /\ ring[cur].e.cal[2] # Zero4)
===========================================================================
