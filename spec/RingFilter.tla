---------------------------- MODULE RingFilter ----------------------------
(* Pulse-to-pulse filtering of range gates. Pulses are numbered from 1; x[n] holds one
   sample for each gate. Gates 1..cf.gates are filtered by the difference equation, the others pass. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cf, on, B, A, fed, insp, out, x, skip, xs, ys
rvars == <<cf, on, B, A, fed, insp, out, x, skip, xs, ys>>
Taps == 8

RInit(c) ==
    /\ cf = c /\ on = FALSE /\ B = <<1>> /\ A = <<1>>
    /\ fed = 0 /\ insp = 0 /\ out = 0
    /\ x = << >> /\ skip = << >>
    /\ xs = << >> /\ ys = << >>      \* most recent first: inputs and outputs of the filtered pulses

Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
Drop(f, k) == [i \in DOMAIN f \ {k} |-> f[i]]
Keep(s) == IF Len(s) > Taps THEN SubSeq(s, 1, Taps) ELSE s
RECURSIVE Sum(_, _, _, _)
\* c[j] * h[j - o] at gate g, for j = k..Len(c), as far as there is history
Sum(c, h, g, k) == IF k > Len(c) \/ k > Len(h) THEN 0 ELSE c[k] * h[k][g] + Sum(c, h, g, k + 1)
\* what one sequential filter puts out for input v
Response(v) ==
    LET h == <<v>> \o xs IN
    [g \in 1..Len(v) |-> IF g <= cf.gates THEN Sum(B, h, g, 1) - Sum(SubSeq(A, 2, Len(A)), ys, g, 1) ELSE v[g]]

SetFilter(o, b, a) ==
    /\ out = fed
    /\ on' = o /\ B' = b /\ A' = a
    /\ UNCHANGED <<cf, fed, insp, out, x, skip, xs, ys>>

Feed(n, s, v) ==
    /\ n = fed + 1 /\ fed' = n
    /\ x' = Put(x, n, v) /\ skip' = Put(skip, n, s)
    /\ UNCHANGED <<cf, on, B, A, insp, out, xs, ys>>

Inspect(n) ==
    /\ n = insp + 1 /\ n <= fed
    /\ insp' = n
    /\ UNCHANGED <<cf, on, B, A, fed, out, x, skip, xs, ys>>

\* pulse n is announced with data v, marked filtered (f) or left out (s)
Finish(n, f, s, v) ==
    /\ n = out + 1 /\ n <= insp
    /\ out' = n
    /\ f = (on /\ ~skip[n]) /\ s = (on /\ skip[n])
    /\ IF f THEN LET y == Response(x[n]) IN
               /\ v = y
               /\ xs' = Keep(<<x[n]>> \o xs)
               /\ ys' = Keep(<<y>> \o ys)
       ELSE v = x[n] /\ UNCHANGED <<xs, ys>>
    /\ x' = Drop(x, n) /\ skip' = Drop(skip, n)
    /\ UNCHANGED <<cf, on, B, A, fed, insp>>

Settled == out = fed
InOrder == out <= insp /\ insp <= fed
===========================================================================
