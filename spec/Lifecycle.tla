---------------------------- MODULE Lifecycle ----------------------------
(* An engine as its owner sees it: started, stopped, asked again; its threads, the input it is given and the input *)
(* it has dealt with in this run.                                                                                  *)
EXTENDS Integers
VARIABLES phase, threads, fed, done
lvars == <<phase, threads, fed, done>>
LInit == phase = "off" /\ threads = 0 /\ fed = 0 /\ done = 0
\* the caller prepares the buffers, then starts
StartCall == phase = "off" /\ phase' = "starting" /\ fed' = 0 /\ done' = 0 /\ threads' \in {threads, threads + 1}
\* back from start it is active, and somebody is at work
StartReturn(active, alive) == phase = "starting" /\ active /\ alive > 0 /\ alive = threads /\ phase' = "on" /\ UNCHANGED <<threads, fed, done>>
Spawn(n) == phase \in {"starting", "on", "stopping"} /\ n > 0 /\ threads' = threads + n /\ UNCHANGED <<phase, fed, done>>
Exit == threads > 0 /\ phase # "off" /\ threads' = threads - 1 /\ UNCHANGED <<phase, fed, done>>
Feed == phase # "starting" /\ fed' = fed + 1 /\ UNCHANGED <<phase, threads, done>>
\* only the threads of an engine that is not off deal with input
Work == phase # "off" /\ threads > 0 /\ done < fed /\ done' = done + 1 /\ UNCHANGED <<phase, threads, fed>>
StopCall == phase = "on" /\ phase' = "stopping" /\ UNCHANGED <<threads, fed, done>>
\* back from stop nothing of it is left
StopReturn(clean, alive) == phase = "stopping" /\ clean /\ alive = 0 /\ threads = 0 /\ phase' = "off" /\ UNCHANGED <<threads, fed, done>>
\* stopping what is not running says so and changes nothing
StopAgain(same) == phase = "off" /\ same /\ UNCHANGED lvars
LNext == \/ StartCall \/ Spawn(threads' - threads) \/ Exit \/ Feed \/ Work \/ StopCall
         \/ StartReturn(TRUE, threads) \/ StopReturn(TRUE, threads) \/ StopAgain(TRUE)
LSpec == LInit /\ [][LNext]_lvars
===========================================================================
