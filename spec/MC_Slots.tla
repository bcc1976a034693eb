------------------------------ MODULE MC_Slots ------------------------------
(* One ring of each kind and depth, through several rounds.  Wrong = what is *)
(* wrong in the controls.                                                    *)
EXTENDS Slots
CONSTANTS Kinds, Depths, Rounds, Marks, Wrong
Init == \E kind \in Kinds, d \in Depths : SlotInit([x \in {"a"} |-> kind], [x \in {"a"} |-> d])
r == ring["a"]
Ask == /\ ~r.open /\ Count(r) < Rounds * r.d
       /\ LET q == Asked(r)
              b == CASE Wrong = "noahead" -> [q EXCEPT !.r.st = [j \in 1..r.d |-> IF j - 1 = q.k /\ r.kind \notin {"node", "status"} THEN 0 ELSE r.st[j]]]
                     [] Wrong = "behind" -> [q EXCEPT !.r.st[((q.k + r.d - 2) % r.d) + 1] = 0]
                     [] Wrong = "plusone" -> [q EXCEPT !.r.id[q.k + 1] = r.id[q.k + 1] + 1]
                     [] Wrong = "stays" -> [q EXCEPT !.r.idx = IF q.k = r.d - 1 THEN r.d - 1 ELSE @]
                     [] OTHER -> q
          IN ring' = [ring EXCEPT !["a"] = b.r] /\ out' = b.w
Spec == Init /\ [][\/ Ask \/ Finish("a")
                   \/ \E k \in 0..(r.d - 1), s \in Marks : r.st[k + 1] < s /\ Mark("a", k, s)
                   \/ Count(r) = Rounds * r.d /\ Clear("a")]_<<ring, out>>
\* the lookup by walking back from the index finds the newest finished entry
RECURSIVE Walk(_, _, _)
Walk(q, k, n) == IF n = 0 THEN -1 ELSE IF St(q, k) = 2 THEN k ELSE Walk(q, (k + q.d - 1) % q.d, n - 1)
WalkIsLatest == Walk(r, (r.idx + r.d - 1) % r.d, r.d) = Latest(r)
NeverFull == ~(Count(r) = 2 * r.d /\ \A k \in Recent(r) : St(r, k) = 2)
=============================================================================
