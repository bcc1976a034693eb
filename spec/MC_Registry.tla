---------------------------- MODULE MC_Registry ----------------------------
(* The locked implementation (find a free slot and take it under one lock) seen through the specification;  *)
(* with Locked = FALSE the search and the taking are two steps, which the specification must refuse.        *)
EXTENDS Registry, TLC
CONSTANTS Cap, NT, MaxLabel, Locked
VARIABLES slots,   \* label in each slot, 0 when free
          found,   \* per thread: slot found by an unlocked search
          n
mvars == <<rvars, slots, found, n>>
MInit == RInit(Cap, NT) /\ slots = [s \in 0..Cap - 1 |-> 0] /\ found = [t \in 1..NT |-> -1] /\ n = 0
Free == {s \in 0..Cap - 1 : slots[s] = 0}
First(S) == CHOOSE s \in S : \A u \in S : s <= u
MCall(t) == \/ n < MaxLabel /\ Call(t, "D", n + 1) /\ n' = n + 1 /\ UNCHANGED <<slots, found>>
            \/ \E id \in 0..Cap : Call(t, "U", id) /\ UNCHANGED <<slots, found, n>>
            \/ \E id \in 0..Cap : Call(t, "G", id) /\ UNCHANGED <<slots, found, n>>
Take(t, s) == /\ slots' = [slots EXCEPT ![s] = op[t].arg] /\ Assert(s + 1 \notin Ids, "identity given twice") /\ Register(t, s + 1)
MDo(t) == /\ op[t].k # "-" /\ ~op[t].done /\ UNCHANGED n
          /\ \/ op[t].k = "D" /\ Free = {} /\ found[t] = -1 /\ Assert(Cardinality(reg) = Cap, "refused early") /\ Register(t, 0) /\ UNCHANGED <<slots, found>>
             \/ op[t].k = "D" /\ Free # {} /\ Locked /\ Take(t, First(Free)) /\ UNCHANGED found
             \/ op[t].k = "D" /\ Free # {} /\ ~Locked /\ found[t] = -1 /\ found' = [found EXCEPT ![t] = First(Free)] /\ UNCHANGED <<slots, rvars>>
             \/ op[t].k = "D" /\ ~Locked /\ found[t] # -1 /\ Take(t, found[t]) /\ found' = [found EXCEPT ![t] = -1]
             \/ op[t].k = "U" /\ LET s == op[t].arg - 1 IN
                  IF s \in 0..Cap - 1 /\ slots[s] # 0 THEN slots' = [slots EXCEPT ![s] = 0] /\ Remove(t, TRUE) /\ UNCHANGED found
                  ELSE Remove(t, FALSE) /\ UNCHANGED <<slots, found>>
             \/ op[t].k = "G" /\ LET s == op[t].arg - 1 IN
                  Lookup(t, IF s \in 0..Cap - 1 /\ slots[s] # 0 THEN s ELSE -1) /\ UNCHANGED <<slots, found>>
MRet(t) == Return(t, op[t].k, op[t].res) /\ op[t].done /\ UNCHANGED <<slots, found, n>>
MNext == \E t \in 1..NT : MCall(t) \/ MDo(t) \/ MRet(t)
MSpec == MInit /\ [][MNext]_mvars
Same == {<<r.id, r.label>> : r \in reg} = {<<s + 1, slots[s]>> : s \in {s \in 0..Cap - 1 : slots[s] # 0}}
\* no operation is ever stuck
Able == \A t \in 1..NT : op[t].k # "-" /\ ~op[t].done => ENABLED MDo(t)
NoFull == ~(Cardinality(reg) = Cap /\ \E t \in 1..NT : op[t].done /\ op[t].k = "D" /\ op[t].res = 0)
===========================================================================
