------------------------------- MODULE Queue -------------------------------
(* The command queue as its users see it: operations that are called, take effect once, and return. *)
EXTENDS Integers, Sequences
VARIABLES q, depth, op
qvars == <<q, depth, op>>
Idle == [k |-> "-", v |-> 0, done |-> FALSE, ret |-> 0]
QInit(d, T) == q = <<>> /\ depth = d /\ op = [t \in T |-> Idle]
\* k: "P" push of v, "O" pop without waiting, "W" pop that waits
Call(t, k, v) == op[t].k = "-" /\ op' = [op EXCEPT ![t] = [k |-> k, v |-> v, done |-> FALSE, ret |-> 0]] /\ UNCHANGED <<q, depth>>
Push(t) == /\ op[t].k = "P" /\ ~op[t].done /\ UNCHANGED depth
           /\ IF Len(q) < depth THEN q' = Append(q, op[t].v) /\ op' = [op EXCEPT ![t].done = TRUE, ![t].ret = 1]
              ELSE UNCHANGED q /\ op' = [op EXCEPT ![t].done = TRUE]
Pop(t) == /\ op[t].k \in {"O", "W"} /\ ~op[t].done /\ UNCHANGED depth
          /\ IF q # <<>> THEN q' = Tail(q) /\ op' = [op EXCEPT ![t].done = TRUE, ![t].ret = Head(q)]
             ELSE op[t].k = "O" /\ UNCHANGED q /\ op' = [op EXCEPT ![t].done = TRUE]
Return(t, v) == op[t].done /\ op[t].ret = v /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<q, depth>>
QInv == Len(q) <= depth
===========================================================================
