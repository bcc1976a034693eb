----------------------------- MODULE Registry -----------------------------
(* The product registry: identity -> label and slot of the registered products; each operation takes      *)
(* effect at one moment between its call and its return.                                                   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cap, reg,      \* reg : registered products [id, label, slot], slot -1 while nobody has looked it up
          op             \* per thread: what is under way [k, arg, done, res]
rvars == <<cap, reg, op>>
Idle == [k |-> "-", arg |-> 0, done |-> FALSE, res |-> 0]
RInit(c, n) == cap = c /\ reg = {} /\ op = [t \in 1..n |-> Idle]
Ids == {r.id : r \in reg}
Call(t, k, a) == op[t].k = "-" /\ op' = [op EXCEPT ![t] = [k |-> k, arg |-> a, done |-> FALSE, res |-> 0]] /\ UNCHANGED <<cap, reg>>
Done(t, v) == op' = [op EXCEPT ![t].done = TRUE, ![t].res = v]
\* register: refused only when all slots are taken; the identity is new and not 0
Register(t, id) ==
    /\ op[t].k = "D" /\ ~op[t].done
    /\ IF Cardinality(reg) >= cap THEN id = 0 /\ reg' = reg
       ELSE id \notin Ids \cup {0} /\ reg' = reg \cup {[id |-> id, label |-> op[t].arg, slot |-> -1]}
    /\ Done(t, id) /\ UNCHANGED cap
Remove(t, ok) ==
    /\ op[t].k = "U" /\ ~op[t].done
    /\ ok = (op[t].arg \in Ids)
    /\ reg' = {r \in reg : r.id # op[t].arg}
    /\ Done(t, IF ok THEN 1 ELSE 0) /\ UNCHANGED cap
\* a lookup finds the slot of a registered product, always the same one and no other product's, or nothing (-1)
Lookup(t, s) ==
    /\ op[t].k = "G" /\ ~op[t].done
    /\ IF op[t].arg \in Ids
       THEN LET r == CHOOSE r \in reg : r.id = op[t].arg IN
            /\ s \in 0..cap - 1
            /\ (r.slot = s \/ (r.slot = -1 /\ \A q \in reg : q.slot # s))
            /\ reg' = (reg \ {r}) \cup {[r EXCEPT !.slot = s]}
       ELSE s = -1 /\ reg' = reg
    /\ Done(t, s) /\ UNCHANGED cap
Complete(t) == op[t].k = "S" /\ ~op[t].done /\ Done(t, 0) /\ UNCHANGED <<cap, reg>>
Return(t, k, v) == op[t].k = k /\ op[t].done /\ op[t].res = v /\ op' = [op EXCEPT ![t] = Idle] /\ UNCHANGED <<cap, reg>>
Inv == Cardinality(reg) <= cap /\ \A q, r \in reg : q.id = r.id => q = r
===========================================================================
