---------------------------- MODULE MC_Steer ----------------------------
(* Steer over small domains: an antenna that may be anywhere on a coarse grid, any command at
   any time. The properties are those of the scan sequence as users see it. *)
EXTENDS Steer, TLC
CONSTANTS Cmds
VARIABLES n, last, ran, once
vars == <<svars, n, last, ran, once>>
C == [toc |-> 1, turn |-> 1, again |-> 1, max |-> 2, heading |-> 0, usepoint |-> TRUE]
Els == {0, 40}
Azs == {0, 40, 1440, 2840}
Ppi1 == Ppi(<<0, 40>>, 0, 144)
Mix == Rhi(0, 40, <<0>>, 144) \o One("S", 0, 0, 0, 40, 144)
Long == Ppi(<<0, 40, 0>>, 0, 144)
\* last: what the previous report did; ran: sweep positions completed in the lineup running now
MInit == SInit(C) /\ n = 0 /\ last = [ended |-> FALSE, ix |-> 0, cmd |-> FALSE] /\ ran = << >> /\ once = "no"
Cmd(nm) == /\ n < Cmds /\ n' = n + 1
           /\ last' = [last EXCEPT !.cmd = TRUE]
           /\ ran' = IF ix' = 0 /\ (prog' = {} \/ bat # bat') THEN << >> ELSE ran
           /\ once' = IF nm = "once" THEN IF bat = << >> THEN "running" ELSE "queued"
                      ELSE IF nm \in {"other", "start"} THEN IF nm = "start" THEN once ELSE "no"
                      ELSE IF nm = "next" THEN IF once = "queued" THEN "running" ELSE "no"
                      ELSE once
Rep == \E el \in Els, az \in Azs, vel \in {0, 24}, vaz \in {0, 144} :
       \* the antenna turns one way, and moves if and only if it has a speed
       /\ az = (IF vaz = 0 THEN az0 ELSE CASE az0 = 0 -> 40 [] az0 = 40 -> 1440 [] az0 = 1440 -> 2840 [] az0 = 2840 -> 0)
       /\ (vel # 0 <=> el # el0)
       /\ Report(el, az, vel, vaz)
       /\ last' = [ended |-> rep'.ended, ix |-> ix, cmd |-> FALSE]
       /\ ran' = IF rep'.ended THEN IF ix' = 0 THEN << >> ELSE Append(ran, ix) ELSE ran
       /\ once' = IF rep'.ended /\ (ix + 1 = Len(bat)) /\ repeat
                  THEN IF once = "queued" THEN "running" ELSE IF once = "running" THEN "no" ELSE once ELSE once
       /\ UNCHANGED n
MNext == \/ Rep
         \/ (Lineup(Ppi1) \/ Lineup(Mix) \/ Lineup(Long) \/ Immediate(Mix) \/ Aim(40, 1440, FALSE) \/ Aim(0, 0, TRUE)) /\ Cmd("other")
         \/ Once(Mix) /\ Cmd("once")
         \/ NextLineup /\ Cmd("next")
         \/ Start /\ Cmd("start")
         \/ (Halt \/ SetRepeat(FALSE)) /\ Cmd("keep")
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(Rep)
\* ticks only matter up to the thresholds
View == <<svars, n, last, ran, once>>
\* sweeps complete in lineup order, each once
InOrder == \A k \in 1..Len(ran) : ran[k] = k - 1
IsNext == Len(ran) = ix \/ ~active
Flagged == /\ rep.ended <=> rep.flags \cap {"azc", "elc"} # {}
           /\ ~(rep.flags \cap {"azs", "elp"} # {} /\ rep.flags \cap {"azp", "els"} # {} /\ Cardinality(rep.flags \cap {"azs", "azp"}) # 1)
           /\ (rep.flags # {} => Cardinality(rep.flags \cap {"azs", "azp"}) = 1 /\ Cardinality(rep.flags \cap {"els", "elp"}) = 1)
\* two reports in a row do not both end a sweep, unless they are points
NoDouble == [][n' = n /\ rep'.ended /\ last.ended /\ ~last.cmd /\ bat # << >> => bat[ix + 1].m = "T"]_vars
\* an RHI or a sector sweep ends only after it was set in motion
Moved == [][n' = n /\ rep'.ended /\ bat[ix + 1].m \in {"R", "S"} => "M" \in prog]_vars
\* no report of a halted controller is in a sweep
HaltQuiet == [][n' = n /\ ~active /\ rep' # rep => rep'.flags = {} /\ ~rep'.ended]_vars
\* lineups change only at the end of the last sweep or by command
Kept == [][n' = n /\ bat' # bat => rep'.ended /\ ix + 1 = Len(bat) /\ (bat' = deck \/ bat' = << >>)]_vars
\* a once-lineup runs at most once: after it the queued lineup is back
OnceOnly == once = "running" => deck = hole
NextOk == n <= Cmds
\* reachability
NoRhiEnd == ~(rep.ended /\ "elc" \in rep.flags /\ "els" \in rep.flags)
NoPpiEnd == ~(rep.ended /\ "azs" \in rep.flags /\ ix = 0)
NoOnce == once # "running"
=========================================================================
