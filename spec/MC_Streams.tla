---------------------------- MODULE MC_Streams ----------------------------
EXTENDS Streams, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES said, got
MInit == SInit /\ said = <<>> /\ got = FALSE
\* a canonical rendering
LetterOf(b) == CHOOSE p \in Table : p[2] = b
Render(v, b) == (IF v = 0 THEN <<>> ELSE <<47 + v>>) \o SetToSeq({LetterOf(x)[1] : x \in (b \cap Nameable) \ Action})
MNext == /\ ~got
         /\ \/ Len(said) < MaxLen /\ \E c \in Alphabet : Read(c) /\ said' = Append(said, c) /\ got' = FALSE
            \/ got' = TRUE /\ said' = Render(view, bits) /\ LET p == Parse(said') IN view' = p[1] /\ bits' = p[2] /\ Assert(view' = view /\ bits' = bits \ Action, "round trip")
MSpec == MInit /\ [][MNext]_<<svars, said, got>>
Spoken == Parse(said) = <<view, IF got THEN bits \ Action ELSE bits>>
Orderless == \A j \in 1..Len(said), k \in 1..Len(said) :
    LET sw == [said EXCEPT ![j] = said[k], ![k] = said[j]] IN
    /\ Parse(sw)[2] = Parse(said)[2]
    /\ (Cardinality({View(said[m]) : m \in 1..Len(said)} \ {0}) <= 1 => Parse(sw) = Parse(said))
Twice == Parse(said \o said) = Parse(said)
Unambiguous == \A p, q \in Table : (p[1] = q[1] \/ p[2] = q[2]) => p = q
Never9 == ~(got /\ view = 9 /\ Cardinality(bits) >= 2)
===========================================================================
