---------------------------- MODULE T_Steer ----------------------------
EXTENDS Steer, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ SInit(Traces[tr].cf)
Item(x) == CASE x[1] = "p" -> One("P", x[2], x[3], x[4], x[5], x[6])
             [] x[1] = "s" -> One("S", x[2], x[3], x[4], x[5], x[6])
             [] x[1] = "r" -> One("R", x[2], x[3], x[4], x[5], x[6])
             [] x[1] = "pp" -> Ppi(x[2], x[3], x[4])
             [] x[1] = "rr" -> Rhi(x[2], x[3], x[4], x[5])
RECURSIVE Items(_, _)
Items(s, k) == IF k > Len(s) THEN << >> ELSE Item(s[k]) \o Items(s, k + 1)
Range(s) == {s[k] : k \in 1..Len(s)}
Shape(a, i, n, d, h) == active' = (a = 1) /\ ix' = i /\ Len(bat') = n /\ Len(deck') = d /\ Len(hole') = h
TStep ==
    \/ Is("P") /\ Report(E[2], E[3], E[4], E[5])
       /\ rep'.flags = Range(E[6]) /\ rep'.sel = E[7] /\ rep'.saz = E[8] /\ rep'.act = E[9]
       /\ Shape(E[10], E[11], E[12], E[13], E[14])
    \/ /\ Is("C")
       /\ LET v == E[2] IN
          CASE v = "line" -> Lineup(Items(E[8], 1))
            [] v = "once" -> Once(Items(E[8], 1))
            [] v = "now" -> Immediate(Items(E[8], 1))
            [] v = "aim" -> Aim(E[8][1], E[8][2], FALSE)
            [] v = "home" -> Aim(0, cf.heading, TRUE)
            [] v = "start" -> Start
            [] v = "stop" -> Halt
            [] v = "next" -> NextLineup
            [] v = "repeat" -> SetRepeat(E[8] = 1)
       /\ Shape(E[3], E[4], E[5], E[6], E[7])
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, svars>>
TNext == TStep /\ Bounded' /\ Sane'
TSpec == TInit /\ [][TNext]_<<tr, l, svars>>
Diag == IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
========================================================================
