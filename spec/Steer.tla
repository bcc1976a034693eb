----------------------------- MODULE Steer -----------------------------
(* Scan sequencing. Angles are integers in 1/8 degree, speeds in 1/8 degree per second.
   A sweep is a record [m, e0, e1, a0, a1, r] with m = "P" (PPI), "S" (sector),
   "R" (RHI) or "T" (point). cf: toc (reports between commands), turn (reports after which a
   crossing ends a PPI), again (reports after which a PPI may stop the elevation again),
   max (lineup capacity), heading, usepoint. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cf, bat, deck, hole, repeat, active, ix, tic, prog, el0, az0, rep
svars == <<cf, bat, deck, hole, repeat, active, ix, tic, prog, el0, az0, rep>>

NoRep == [flags |-> {}, sel |-> 0, saz |-> 0, act |-> << >>, ended |-> FALSE]
SInit(c) ==
    /\ cf = c /\ bat = << >> /\ deck = << >> /\ hole = << >>
    /\ repeat = TRUE /\ active = FALSE /\ ix = 0 /\ tic = 0 /\ prog = {}
    /\ el0 = 0 /\ az0 = 0 /\ rep = NoRep

Abs(x) == IF x < 0 THEN -x ELSE x
MinDiff(a, b) == LET d == a - b IN IF d < -1440 THEN d + 2880 ELSE IF d >= 1440 THEN d - 2880 ELSE d
Crossed(a, b, m) == LET d1 == MinDiff(a, m)
                        d2 == MinDiff(b, m)
                    IN d1 = 0 \/ (((d1 < 0 /\ d2 > 0) \/ (d1 > 0 /\ d2 < 0)) /\ Abs(d1) < 80)
Sign(d, r) == IF d < 0 THEN -r ELSE r
AzRate(d) == LET g == Abs(d) IN Sign(d, IF g >= 160 THEN 240 ELSE IF g >= 80 THEN 160 ELSE IF g >= 40 THEN 80 ELSE IF g >= 12 THEN 24 ELSE 8)
ElRate(d) == LET g == Abs(d) IN Sign(d, IF g >= 160 THEN 120 ELSE IF g >= 24 THEN 80 ELSE IF g >= 4 THEN 24 ELSE 8)
VTol == 2      \* 0.25 deg/s
Off(d) == d # 0  \* 0.1 degree is less than one unit

Stop(ax) == <<ax, "stop", 0>>
Slew(ax, r) == <<ax, "slew", r>>
Point(ax, x) == <<ax, "point", x>>

\* commands issued while a sweep is being set up
ElGoto(s, el, vel, strict) ==
    LET d == MinDiff(s.e0, el) IN
    IF Off(d) THEN IF cf.usepoint THEN <<Point("el", s.e0)>> ELSE <<Slew("el", ElRate(d))>>
    ELSE IF Abs(vel) > VTol \/ (~strict /\ Abs(vel) = VTol) THEN <<Stop("el")>>
    ELSE << >>
AzGoto(s, az, vaz, strict) ==
    LET d == MinDiff(s.a0, az) IN
    IF Off(d) THEN IF cf.usepoint /\ s.m = "T" THEN <<Point("az", s.a0)>> ELSE <<Slew("az", AzRate(d))>>
    ELSE IF Abs(vaz) > VTol \/ (~strict /\ Abs(vaz) = VTol) THEN <<Stop("az")>>
    ELSE << >>
\* the first command gives way to c
First(acts, c) == IF acts = << >> THEN <<c>> ELSE <<c>> \o Tail(acts)

\* [acts, prog, fresh]: what the setup stage does (fresh: some command was issued)
Setup(s, el, az, vel, vaz) ==
    LET onEl == ~Off(MinDiff(s.e0, el))
        onAz == ~Off(MinDiff(s.a0, az))
    IN CASE s.m = "R" ->
              LET a == ElGoto(s, el, vel, FALSE) \o AzGoto(s, az, vaz, FALSE)
              IN [acts |-> IF onEl /\ onAz THEN First(a, Slew("el", s.r)) ELSE a, prog |-> IF onEl /\ onAz THEN (prog \ {"S"}) \cup {"M"} ELSE prog,
                  fresh |-> a # << >> \/ (onEl /\ onAz)]
         [] s.m = "P" ->
              LET a == ElGoto(s, el, vel, FALSE) \o (IF Abs(s.r - vaz) >= VTol THEN <<Slew("az", s.r)>> ELSE << >>)
                  ok == onEl /\ Abs(vel) < 1
              IN [acts |-> a, prog |-> IF ok THEN (prog \ {"S"}) \cup {"M"} ELSE prog, fresh |-> a # << >>]
         [] s.m = "S" ->
              LET a == ElGoto(s, el, vel, FALSE) \o AzGoto(s, az, vaz, FALSE)
              IN [acts |-> IF onEl /\ onAz THEN First(a, Slew("az", s.r)) ELSE a, prog |-> IF onEl /\ onAz THEN (prog \ {"S"}) \cup {"M"} ELSE prog,
                  fresh |-> a # << >> \/ (onEl /\ onAz)]
         [] s.m = "T" ->
              LET a == ElGoto(s, el, vel, TRUE) \o AzGoto(s, az, vaz, TRUE)
              IN [acts |-> a, prog |-> IF onEl /\ onAz THEN (prog \ {"S"}) \cup {"E"} ELSE prog, fresh |-> a # << >>]

\* [acts, prog, fresh] after the data collection stage; t: reports since the last command
Middle(s, u, el, az, vel, vaz, t) ==
    IF "M" \notin u.prog THEN u
    ELSE CASE s.m = "R" ->
                IF Abs(vel) > VTol /\ Crossed(el, el0, s.e1) THEN [u EXCEPT !.prog = (@ \ {"M"}) \cup {"E"}] ELSE u
           [] s.m = "P" ->
                IF Abs(vaz) <= VTol THEN u
                ELSE LET redo == "S" \notin u.prog /\ t > cf.again /\ Abs(vel) >= VTol
                         v == IF redo THEN [u EXCEPT !.acts = First(@, Stop("el")), !.fresh = TRUE] ELSE u
                     IN IF ~redo /\ t > cf.turn /\ Crossed(az, az0, s.a1) THEN [v EXCEPT !.prog = @ \cup {"E"}] ELSE v
           [] s.m = "S" ->
                IF Abs(vaz) > VTol /\ Crossed(az, az0, s.a1) THEN [u EXCEPT !.prog = @ \cup {"E"}] ELSE u
           [] OTHER -> u

Flags(s, p) ==
    {"vcp"} \cup (IF "M" \in p THEN {"scan"} ELSE {})
    \cup (CASE s.m \in {"P", "S"} -> {"azs", "elp"} [] s.m = "R" -> {"azp", "els"} [] s.m = "T" -> {"azp", "elp"})
    \cup (IF "E" \in p THEN CASE s.m \in {"P", "S"} -> {"azc"} [] s.m = "R" -> {"elc"} [] s.m = "T" -> {"azc", "elc"} ELSE {})

Tick(t) == IF t > cf.turn + 1 THEN t ELSE t + 1
\* a position report arrives
Report(el, az, vel, vaz) ==
    /\ IF ~active \/ bat = << >> THEN
          LET halt == "X" \in prog
              acts == IF halt THEN (IF Abs(vel) > VTol THEN <<Stop("el")>> ELSE << >>) \o (IF Abs(vaz) > VTol THEN <<Stop("az")>> ELSE << >>)
                      ELSE << >>
          IN /\ rep' = [NoRep EXCEPT !.act = acts]
             /\ prog' = IF halt THEN {} ELSE prog
             /\ tic' = Tick(IF acts # << >> THEN 0 ELSE tic)
             /\ UNCHANGED <<cf, bat, deck, hole, repeat, active, ix>>
       ELSE
          LET s == bat[ix + 1]
              begin == prog = {}
              t0 == IF begin /\ tic > cf.toc THEN cf.toc ELSE tic
              u0 == [acts |-> << >>, prog |-> prog, fresh |-> FALSE]
              u1 == IF begin THEN [u0 EXCEPT !.prog = IF s.m = "P" THEN {"S", "M"} ELSE {"S"}]
                    ELSE IF "S" \in prog /\ t0 >= cf.toc THEN Setup(s, el, az, vel, vaz) ELSE u0
              t1 == IF u1.fresh THEN 0 ELSE t0
              u2 == Middle(s, u1, el, az, vel, vaz, t1)
              t2 == IF u2.fresh THEN 0 ELSE t1
              end == "E" \in u2.prog
              last == end /\ ix + 1 = Len(bat)
              wrap == last /\ repeat
              quit == last /\ ~repeat
              drop == quit /\ Len(bat) = 1 /\ s.m = "T"
              nbat == IF wrap THEN deck ELSE IF drop THEN << >> ELSE bat
              nix == IF end THEN IF last THEN 0 ELSE ix + 1 ELSE ix
              rest == IF drop THEN {} ELSE u2.prog \ {"E"}
          IN /\ rep' = [flags |-> Flags(s, u2.prog), sel |-> s.e0, saz |-> s.a0, act |-> u2.acts, ended |-> end]
             /\ bat' = nbat
             /\ deck' = IF wrap THEN hole ELSE IF drop THEN << >> ELSE deck
             /\ hole' = IF drop THEN << >> ELSE hole
             /\ active' = ~quit
             /\ ix' = nix
             \* only a PPI following on collects data while it is being set up
             /\ prog' = IF ~end THEN u2.prog
                        ELSE {"S"} \cup (IF nbat # << >> /\ nbat[nix + 1].m = "P" THEN rest ELSE rest \ {"M"})
             /\ tic' = Tick(t2)
             /\ UNCHANGED <<cf, repeat>>
    /\ el0' = el /\ az0' = az

\* ---- commands
Fits(q, more) == LET room == cf.max - Len(q) IN IF Len(more) <= room THEN more ELSE SubSeq(more, 1, room)
\* sweeps described by a command
Ppi(es, a, r) == [k \in 1..Len(es) |-> [m |-> "P", e0 |-> es[k], e1 |-> es[k], a0 |-> a, a1 |-> a, r |-> r]]
Rhi(e0, e1, as, r) == [k \in 1..Len(as) |-> [m |-> "R", a0 |-> as[k], a1 |-> 0,
        e0 |-> IF k % 2 = 1 THEN e0 ELSE e1, e1 |-> IF k % 2 = 1 THEN e1 ELSE e0, r |-> IF k % 2 = 1 THEN r ELSE -r]]
One(m, e0, e1, a0, a1, r) == <<[m |-> m, e0 |-> e0, e1 |-> e1, a0 |-> a0, a1 |-> a1, r |-> r]>>

Quiet == UNCHANGED <<cf, tic, el0, az0, rep>>
\* a queued lineup: taken up at the end of the current one, then repeated; at once if there is none
Lineup(sw) ==
    LET q == Fits(<< >>, sw) IN
    /\ repeat' = TRUE /\ active' = TRUE
    /\ prog' = prog \ {"X"}
    /\ IF bat = << >> THEN bat' = q /\ deck' = q /\ hole' = q /\ ix' = 0
       ELSE UNCHANGED <<bat, ix>> /\ deck' = q /\ hole' = q
    /\ Quiet
\* the same, run only once: afterwards the queued lineup returns
Once(sw) ==
    LET q == Fits(<< >>, sw) IN
    /\ repeat' = TRUE /\ active' = TRUE
    /\ prog' = prog \ {"X"}
    /\ IF bat = << >> THEN bat' = q /\ deck' = hole /\ ix' = 0
       ELSE UNCHANGED <<bat, ix>> /\ deck' = q
    /\ UNCHANGED hole
    /\ Quiet
\* takes effect at once
Immediate(sw) ==
    LET q == Fits(<< >>, sw) IN
    /\ repeat' = TRUE /\ active' = TRUE /\ prog' = {} /\ ix' = 0
    /\ bat' = q /\ deck' = q /\ hole' = q
    /\ Quiet
\* point there and stay; nothing remains queued
Aim(e, a, rp) ==
    /\ repeat' = rp /\ active' = TRUE /\ prog' = {} /\ ix' = 0
    /\ bat' = One("T", e, e, a, a, 0) /\ deck' = << >> /\ hole' = << >>
    /\ Quiet
Halt == /\ active' = FALSE /\ prog' = {"X"}
        /\ UNCHANGED <<bat, deck, hole, repeat, ix>> /\ Quiet
Start == /\ active' = TRUE /\ prog' = {} /\ ix' = 0 /\ repeat' = TRUE
         /\ UNCHANGED <<bat, deck, hole>> /\ Quiet
NextLineup == /\ active' = TRUE /\ prog' = {} /\ ix' = 0
              /\ bat' = deck /\ deck' = hole
              /\ UNCHANGED <<hole, repeat>> /\ Quiet
SetRepeat(r) == repeat' = r /\ UNCHANGED <<bat, deck, hole, active, prog, ix>> /\ Quiet

Bounded == Len(bat) <= cf.max /\ Len(deck) <= cf.max /\ Len(hole) <= cf.max
           /\ (bat # << >> => ix < Len(bat)) /\ (bat = << >> => ix = 0)
Sane == prog \in {{}, {"S"}, {"M"}, {"S", "M"}, {"X"}} /\ (active => "X" \notin prog)
=========================================================================
