------------------------------ MODULE Frames ------------------------------
(* Receiving packets: on each connection packets are put on the wire one after another, and they are handed over   *)
(* one after another, whole. A packet with an impossible size, one that is never completed, or the end of a        *)
(* connection ends it; then there may be another.                                                                  *)
EXTENDS Integers, Sequences
VARIABLES sent, got, fate, on
fvars == <<sent, got, fate, on>>
\* fate: "open", "bad" (nothing further can be understood), "gone" (the peer has left after its last packet)
FInit == sent = <<>> /\ got = 0 /\ fate = "gone" /\ on = TRUE
Drained == got = Len(sent)
Open == fate # "open" /\ Drained /\ sent' = <<>> /\ got' = 0 /\ fate' = "open" /\ UNCHANGED on
Sent(p) == fate = "open" /\ sent' = Append(sent, p) /\ UNCHANGED <<got, fate, on>>
Bad == fate = "open" /\ fate' = "bad" /\ UNCHANGED <<sent, got, on>>
Gone == fate' = (IF fate = "open" THEN "gone" ELSE fate) /\ UNCHANGED <<sent, got, on>>
Deliver(p) == on /\ got < Len(sent) /\ sent[got + 1] = p /\ got' = got + 1 /\ UNCHANGED <<sent, fate, on>>
\* a receiver that reports a failure has had all there was
Failed == fate # "open" /\ Drained /\ UNCHANGED fvars
Off == on' = FALSE /\ UNCHANGED <<sent, got, fate>>
===========================================================================
