----------------------------- MODULE MC_Frames -----------------------------
(* The reader at the level of bytes: a header (one byte here, the size, Big being impossible), then the payload,   *)
(* in whatever pieces they arrive, with attempts that yield nothing in between; checked to behave as Frames.       *)
EXTENDS Frames, FiniteSets, TLC
CONSTANTS MaxPackets, MaxSize, Resumes, Connections
Big == MaxSize + 1
VARIABLES out, wire, buf, need, hdr, n, conns, closing, rd
mvars == <<fvars, out, wire, buf, need, hdr, n, conns, closing, rd>>
\* out: bytes of the packet being written; wire: in transit; buf: what the reader has of the current part; rd: reader phase
MInit == FInit /\ out = <<>> /\ wire = <<>> /\ buf = <<>> /\ need = 1 /\ hdr = 0 /\ n = 0 /\ conns = 0 /\ closing = FALSE /\ rd = "off"
Pay(k, s) == [j \in 1..s |-> 10 * k + j]
Connect == /\ rd = "off" /\ conns < Connections /\ (conns = 0 \/ fate # "open") /\ Open
           /\ conns' = conns + 1 /\ out' = <<>> /\ wire' = <<>> /\ buf' = <<>> /\ need' = 1 /\ hdr' = 0 /\ closing' = FALSE /\ rd' = "head" /\ UNCHANGED n
Write == /\ rd # "off" /\ fate = "open" /\ out = <<>> /\ ~closing /\ n < MaxPackets /\ n' = n + 1
         /\ \E s \in 0..Big :
              \/ s < Big /\ out' = <<s>> \o Pay(n, s) /\ Sent(<<s, Pay(n, s)>>)
              \/ s = Big /\ out' = <<s, 7, 7>> /\ Bad
         /\ UNCHANGED <<wire, buf, need, hdr, conns, closing, rd>>
Transmit == out # <<>> /\ \E k \in 1..Len(out) : wire' = wire \o SubSeq(out, 1, k) /\ out' = SubSeq(out, k + 1, Len(out))
            /\ UNCHANGED <<fvars, buf, need, hdr, n, conns, closing, rd>>
Leave == rd # "off" /\ ~closing /\ out = <<>> /\ closing' = TRUE /\ Gone /\ UNCHANGED <<out, wire, buf, need, hdr, n, conns, rd>>
Read == /\ rd \in {"head", "body"} /\ Len(buf) < need /\ wire # <<>>
        /\ LET k == IF Len(wire) < need - Len(buf) THEN Len(wire) ELSE need - Len(buf) IN
           \E j \in 1..k : buf' = buf \o SubSeq(wire, 1, j) /\ wire' = SubSeq(wire, j + 1, Len(wire))
        /\ UNCHANGED <<fvars, out, need, hdr, n, conns, closing, rd>>
\* an attempt that yields nothing: a reader that does not keep its place starts the part over
Nothing == /\ rd \in {"head", "body"} /\ wire = <<>> /\ ~closing /\ ~Resumes /\ buf # <<>> /\ buf' = <<>>
           /\ UNCHANGED <<fvars, out, wire, need, hdr, n, conns, closing, rd>>
Head1 == /\ rd = "head" /\ Len(buf) = 1 /\ UNCHANGED <<out, wire, n, conns, closing>>
         /\ \/ buf[1] = 0 /\ Deliver(<<0, <<>>>>) /\ buf' = <<>> /\ UNCHANGED <<need, hdr, rd>>
            \/ buf[1] \in 1..MaxSize /\ hdr' = buf[1] /\ need' = buf[1] /\ buf' = <<>> /\ rd' = "body" /\ UNCHANGED fvars
            \/ buf[1] > MaxSize /\ rd' = "off" /\ buf' = <<>> /\ UNCHANGED <<fvars, need, hdr>>
Body == rd = "body" /\ Len(buf) = need /\ Deliver(<<hdr, buf>>) /\ buf' = <<>> /\ need' = 1 /\ rd' = "head"
        /\ UNCHANGED <<out, wire, hdr, n, conns, closing>>
End == rd \in {"head", "body"} /\ wire = <<>> /\ closing /\ out = <<>> /\ Len(buf) < need /\ rd' = "off" /\ UNCHANGED <<fvars, out, wire, buf, need, hdr, n, conns, closing>>
MNext == Connect \/ Write \/ Transmit \/ Leave \/ Read \/ Nothing \/ Head1 \/ Body \/ End
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(Transmit) /\ WF_mvars(Read \/ Head1 \/ Body \/ End)
\* the reader always finds what it is to hand over (Deliver is then possible), and never holds more than it needs
InStep == /\ (rd = "body" /\ Len(buf) = need) => (got < Len(sent) /\ sent[got + 1] = <<hdr, buf>>)
          /\ (rd = "head" /\ Len(buf) = 1 /\ buf[1] = 0) => (got < Len(sent) /\ sent[got + 1] = <<0, <<>>>>)
          /\ (rd = "off" /\ conns > 0) => Drained
Bounded == Len(buf) <= need /\ need <= MaxSize
Delivers == []<>(rd = "off" \/ Drained)
NeverTwo == conns < 2
NeverBad == fate # "bad"
===========================================================================
