----------------------------- MODULE Streams ------------------------------
(* A stream request: a reader that takes the letters one by one. The set is kept as bit numbers (5..63) and *)
(* a status view (0 none, 1..9), of which there is at most one: the last one named.                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES view, bits
svars == <<view, bits>>
\* character code -> status view, 0..8 name the views 1..9
View(c) == IF c \in 48..56 THEN c - 47 ELSE 0
\* letters in the order Z V W D P R K Sh Sv (Q) of the three groups, with the number of the bit
Display == <<122, 118, 119, 100, 112, 114, 107, 115, 116>>     \* z v w d p r k s t   bits 16..24
Product == <<90, 86, 87, 68, 80, 82, 75, 83, 84>>              \* Z V W D P R K S T   bits 32..40
Sweep == <<89, 85, 88, 67, 79, 81, 74, 65, 66, 72>>            \* Y U X C O Q J A B H bits 48..57
Others == {<<104, 5>>, <<33, 7>>, <<105, 8>>, <<73, 10>>, <<120, 58>>}    \* h ! i I x
Table == {<<Display[k], 15 + k>> : k \in 1..9} \cup {<<Product[k], 31 + k>> : k \in 1..9}
         \cup {<<Sweep[k], 47 + k>> : k \in 1..10} \cup Others
Bits(c) == {p[2] : p \in {q \in Table : q[1] = c}}
Nameable == {p[2] : p \in Table}
SInit == view = 0 /\ bits = {}
Read(c) == view' = (IF View(c) # 0 THEN View(c) ELSE view) /\ bits' = bits \cup Bits(c)
RECURSIVE LastView(_)
LastView(s) == IF s = <<>> THEN 0 ELSE IF View(Last(s)) # 0 THEN View(Last(s)) ELSE LastView(Front(s))
Parse(s) == <<LastView(s), UNION {Bits(s[k]) : k \in 1..Len(s)}>>
\* the terminal-size change is an action, not a stream: it is not rendered
Action == {58}
Rendered(v, b, s) == /\ Parse(s) = <<v, (b \cap Nameable) \ Action>>
                     /\ \A j, k \in 1..Len(s) : s[j] = s[k] => j = k
===========================================================================
