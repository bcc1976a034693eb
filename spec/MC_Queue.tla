----------------------------- MODULE MC_Queue -----------------------------
(* The ring as it is implemented, step by step, with its lock, checked to behave as the queue of Queue:    *)
(* the abstract queue takes its step where the slot is copied.                                              *)
EXTENDS Queue, FiniteSets, TLC
CONSTANTS Producers, Consumers, Each, D, Locked, Wait
VARIABLES buf, head, tail, count, lock, pc, n, popped, pushed
mvars == <<qvars, buf, head, tail, count, lock, pc, n, popped, pushed>>
P == Producers \cup Consumers
MInit == /\ QInit(D, P) /\ buf = [k \in 0..D - 1 |-> 0] /\ head = 0 /\ tail = 0 /\ count = 0 /\ lock = 0
         /\ pc = [t \in P |-> "idle"] /\ n = [t \in P |-> 0] /\ popped = <<>> /\ pushed = <<>>
Go(t, x) == pc' = [pc EXCEPT ![t] = x]
Value(t) == 10 * t + n[t] + 1
Begin(t) == /\ pc[t] = "idle" /\ n[t] < Each /\ Go(t, "lock") /\ UNCHANGED <<buf, head, tail, count, lock, n, popped, pushed>>
            /\ IF t \in Producers THEN Call(t, "P", Value(t)) ELSE Call(t, IF Wait THEN "W" ELSE "O", 0)
Acquire(t) == /\ pc[t] = "lock" /\ (lock = 0 \/ ~Locked) /\ lock' = t /\ Go(t, "test") /\ UNCHANGED <<qvars, buf, head, tail, count, n, popped, pushed>>
Test(t) == /\ pc[t] = "test" /\ UNCHANGED <<buf, head, tail, count, n, popped, pushed>>
           /\ IF t \in Producers
              THEN IF count >= D THEN Push(t) /\ Go(t, "ret") /\ lock' = 0 ELSE UNCHANGED <<qvars, lock>> /\ Go(t, "copy")
              ELSE IF count = 0 THEN (IF Wait THEN UNCHANGED qvars /\ Go(t, "lock") ELSE Pop(t) /\ Go(t, "ret")) /\ lock' = 0
                   ELSE UNCHANGED <<qvars, lock>> /\ Go(t, "copy")
Copy(t) == /\ pc[t] = "copy" /\ Go(t, "move") /\ UNCHANGED <<head, tail, count, lock, n>>
           /\ IF t \in Producers THEN Push(t) /\ buf' = [buf EXCEPT ![head] = op[t].v] /\ pushed' = Append(pushed, op[t].v) /\ UNCHANGED popped
              ELSE Pop(t) /\ popped' = Append(popped, buf[tail]) /\ UNCHANGED <<buf, pushed>>
Move(t) == /\ pc[t] = "move" /\ Go(t, "count") /\ UNCHANGED <<qvars, buf, count, lock, n, popped, pushed>>
           /\ IF t \in Producers THEN head' = (head + 1) % D /\ UNCHANGED tail ELSE tail' = (tail + 1) % D /\ UNCHANGED head
Tally(t) == /\ pc[t] = "count" /\ Go(t, "ret") /\ lock' = 0 /\ UNCHANGED <<qvars, buf, head, tail, n, popped, pushed>>
            /\ count' = IF t \in Producers THEN count + 1 ELSE count - 1
Ret(t) == /\ pc[t] = "ret" /\ Go(t, "idle") /\ n' = [n EXCEPT ![t] = @ + 1] /\ UNCHANGED <<buf, head, tail, count, lock, popped, pushed>>
          /\ op[t].done /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<q, depth>>
MNext == \E t \in P : Begin(t) \/ Acquire(t) \/ Test(t) \/ Copy(t) \/ Move(t) \/ Tally(t) \/ Ret(t)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in P : WF_mvars(Begin(t)) /\ SF_mvars(Acquire(t)) /\ WF_mvars(Test(t) \/ Copy(t) \/ Move(t) \/ Tally(t) \/ Ret(t))
\* whenever the lock is free the ring holds the queue, and what came out is what went in, in order
Ring == lock = 0 => count = Len(q) /\ \A k \in 1..Len(q) : buf[(tail + k - 1) % D] = q[k]
Order == Len(popped) <= Len(pushed) /\ popped = SubSeq(pushed, 1, Len(popped))
NeverStuck == ENABLED MNext \/ \A t \in P : pc[t] = "idle" /\ n[t] = Each
NeverFull == \A t \in Producers : pc[t] = "ret" => op[t].ret = 1
Done == Wait \/ <>(\A t \in P : n[t] = Each)
===========================================================================
