-------------------------- MODULE MC_Lifecycle --------------------------
(* How the engines of RadarKit do it: a state word of flags, a manager thread that makes workers, a semaphore for  *)
(* every worker, a counter by which a thread says that it is ready. The owner starts and stops at any moment.      *)
EXTENDS Integers, FiniteSets
CONSTANTS W, MaxFed, Rounds, Way
ASSUME Way \in {"code", "toggle", "nopost", "nojoin", "early", "deaf", "forgets", "keeps"}
VARIABLES flags, tic, m, w, sem, wtic, owner, fed, done, out, rounds, given
vars == <<flags, tic, m, w, sem, wtic, owner, fed, done, out, rounds, given>>
Ws == 1..W
\* out : inputs whose work has been handed to a worker; given[x] : what worker x still has to do
Want == "want" \in flags
MInit == /\ flags = {} /\ tic = 0 /\ m = "none" /\ w = [x \in Ws |-> "none"] /\ sem = [x \in Ws |-> 0] /\ wtic = [x \in Ws |-> 0]
         /\ owner = "idle" /\ fed = 0 /\ done = 0 /\ out = 0 /\ rounds = 0 /\ given = [x \in Ws |-> 0]
\* --- owner
Start == /\ owner = "idle" /\ ~Want /\ m = "none" /\ rounds < Rounds /\ rounds' = rounds + 1 /\ owner' = "wait"
         /\ tic' = (IF Way = "keeps" THEN tic ELSE 0) /\ flags' = flags \cup {"activating"} /\ m' = "begin" /\ fed' = 0 /\ done' = 0 /\ out' = 0
         /\ UNCHANGED <<w, sem, wtic, given>>
Started == owner = "wait" /\ tic > 0 /\ owner' = "run" /\ UNCHANGED <<flags, tic, m, w, sem, wtic, fed, done, out, rounds, given>>
\* the guards of stop
Stop == \/ /\ owner \in {"run", "idle"} /\ Want /\ flags' = (flags \ {"want"}) \cup {"deact"} /\ owner' = "join"
           /\ UNCHANGED <<tic, m, w, sem, wtic, fed, done, out, rounds, given>>
        \/ /\ owner = "idle" /\ ~Want /\ Way = "toggle" /\ flags' = flags \cup {"want", "deact"} /\ owner' = "join"
           /\ UNCHANGED <<tic, m, w, sem, wtic, fed, done, out, rounds, given>>
        \/ owner = "idle" /\ ~Want /\ Way # "toggle" /\ UNCHANGED vars
Joined == /\ owner = "join" /\ (m = "none" \/ Way = "nojoin") /\ flags' = flags \ {"deact"} /\ owner' = "idle"
          /\ UNCHANGED <<tic, m, w, sem, wtic, fed, done, out, rounds, given>>
Feed == owner \in {"run", "join", "idle"} /\ fed < MaxFed /\ fed' = fed + 1 /\ UNCHANGED <<flags, tic, m, w, sem, wtic, owner, done, out, rounds, given>>
\* --- manager
Manager ==
    \/ /\ m = "begin" /\ flags' = (flags \cup {"want"}) \ {"activating"} /\ m' = "make" /\ tic' = (IF Way = "early" THEN 1 ELSE tic)
       /\ w' = [x \in Ws |-> "begin"] /\ sem' = [x \in Ws |-> 0] /\ wtic' = [x \in Ws |-> 0] /\ given' = [x \in Ws |-> 0]
       /\ UNCHANGED <<owner, fed, done, out, rounds>>
    \/ /\ m = "make" /\ (\A x \in Ws : wtic[x] > 0) /\ flags' = flags \cup {"active"} /\ m' = "ready"
       /\ UNCHANGED <<tic, w, sem, wtic, owner, fed, done, out, rounds, given>>
    \/ m = "ready" /\ tic' = 1 /\ m' = "loop" /\ UNCHANGED <<flags, w, sem, wtic, owner, fed, done, out, rounds, given>>
    \/ m = "loop" /\ ~Want /\ (Way # "deaf" \/ out < fed) /\ m' = "post" /\ UNCHANGED <<flags, tic, w, sem, wtic, owner, fed, done, out, rounds, given>>
    \/ /\ m = "loop" /\ Want /\ out < fed /\ out' = out + 1 /\ tic' = tic + 1
       /\ LET x == (out % W) + 1 IN sem' = [sem EXCEPT ![x] = @ + 1] /\ given' = [given EXCEPT ![x] = @ + 1]
       /\ UNCHANGED <<flags, m, w, wtic, owner, fed, done, rounds>>
    \/ /\ m = "post" /\ m' = "reap" /\ sem' = [x \in Ws |-> IF Way = "nopost" THEN sem[x] ELSE sem[x] + 1]
       /\ UNCHANGED <<flags, tic, w, wtic, owner, fed, done, out, rounds, given>>
    \/ /\ m = "reap" /\ (\A x \in Ws : w[x] = "none") /\ m' = "last" /\ UNCHANGED <<flags, tic, w, sem, wtic, owner, fed, done, out, rounds, given>>
    \/ /\ m = "last" /\ m' = "none" /\ flags' = (IF Way = "forgets" THEN flags ELSE flags \ {"active"})
       /\ UNCHANGED <<tic, w, sem, wtic, owner, fed, done, out, rounds, given>>
Worker(x) ==
    \/ w[x] = "begin" /\ wtic' = [wtic EXCEPT ![x] = 1] /\ w' = [w EXCEPT ![x] = "loop"] /\ UNCHANGED <<flags, tic, m, sem, owner, fed, done, out, rounds, given>>
    \/ w[x] = "loop" /\ w' = [w EXCEPT ![x] = IF Want THEN "sleep" ELSE "none"] /\ UNCHANGED <<flags, tic, m, sem, wtic, owner, fed, done, out, rounds, given>>
    \/ /\ w[x] = "sleep" /\ sem[x] > 0 /\ sem' = [sem EXCEPT ![x] = @ - 1] /\ w' = [w EXCEPT ![x] = IF Want THEN "work" ELSE "none"]
       /\ UNCHANGED <<flags, tic, m, wtic, owner, fed, done, out, rounds, given>>
    \/ /\ w[x] = "work" /\ w' = [w EXCEPT ![x] = "loop"] /\ given' = [given EXCEPT ![x] = IF @ > 0 THEN @ - 1 ELSE 0] /\ done' = (IF given[x] > 0 THEN done + 1 ELSE done)
       /\ UNCHANGED <<flags, tic, m, sem, wtic, owner, fed, out, rounds>>
MNext == Start \/ Started \/ Stop \/ Joined \/ Feed \/ Manager \/ \E x \in Ws : Worker(x)
\* the owner need not ever stop it, but does not stop halfway; threads go on
Fair == WF_vars(Started) /\ WF_vars(Joined) /\ WF_vars(Manager) /\ \A x \in Ws : WF_vars(Worker(x))
MSpec == MInit /\ [][MNext]_vars /\ Fair
Alive == (IF m = "none" THEN 0 ELSE 1) + Cardinality({x \in Ws : w[x] # "none"})
TypeOK == flags \subseteq {"activating", "want", "active", "deact"} /\ m \in {"none", "begin", "make", "ready", "loop", "post", "reap", "last"}
OffIsOff == owner = "idle" => flags = {} /\ Alive = 0
OnIsOn == owner = "run" => {"want", "active"} \subseteq flags /\ "activating" \notin flags /\ Alive = W + 1
Quiet == [][owner = "idle" /\ owner' = "idle" => done' = done /\ out' = out]_vars
StopReturns == (owner = "join") ~> (owner = "idle")
StartReturns == (owner = "wait") ~> (owner = "run")
Progress == (owner = "run" /\ done < fed) ~> (owner # "run" \/ done = fed)
\* the same, as an engine of Lifecycle
phase == CASE owner = "idle" -> "off" [] owner = "wait" -> "starting" [] owner = "run" -> "on" [] OTHER -> "stopping"
L == INSTANCE Lifecycle WITH threads <- Alive
Refines == L!LSpec
NeverBusyStop == ~(owner = "join" /\ out > done /\ rounds = 2)
=========================================================================
