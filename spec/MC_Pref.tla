------------------------------ MODULE MC_Pref ------------------------------
(* All lookup histories over small files; ghost: what has been given for the current keyword. *)
EXTENDS Pref, TLC
CONSTANTS MaxOps, MaxLen
VARIABLES given, n
mvars == <<pvars, given, n>>
\* Aa 1 | bb x | # c | aA 2 #t | "" |  bb | Aa
L1 == <<65, 97, 32, 49>>
L2 == <<98, 98, 9, 120, 32, 13>>
L3 == <<35, 32, 99>>
L4 == <<32, 97, 65, 32, 32, 50, 32, 35, 116>>
L5 == <<>>
L6 == <<98, 98>>
L7 == <<65, 97>>
Lines == {L1, L2, L3, L4, L5, L6, L7}
Files == UNION {[1..m -> Lines] : m \in 0..MaxLen}
Kws == {<<65, 97>>, <<66, 98>>, <<99, 99>>}
Again == {<<>>, <<L1, L6, L4>>}
MInit == prev = <<>> /\ idx = 0 /\ ents \in {Parse(f) : f \in Files} /\ given = <<>> /\ n = 0
MNext == /\ n < MaxOps /\ n' = n + 1
         /\ \/ \E f \in Again : Load(f) /\ given' = <<>>
            \/ \E k \in Kws : Lookup(k) /\
                 given' = IF Next(k) = 0 THEN given ELSE IF Same(k, prev) THEN Append(given, idx') ELSE <<idx'>>
MSpec == MInit /\ [][MNext]_mvars
\* what has been given for a keyword is its first so many entries, each once, in file order
InOrder == given # <<>> => LET P == SetToSortSeq({k \in DOMAIN ents : Same(ents[k].kw, prev)}, <) IN given = SubSeq(P, 1, Len(given))
\* nothing is given only when all have been
NothingLeft == \A k \in Kws : Next(k) = 0 => (Count(k) = 0 \/ (Same(k, prev) /\ Len(given) = Count(k)))
NeverEnd == ~(Len(given) = 3)
===========================================================================
