--------------------------- MODULE MC_Recorder ---------------------------
EXTENDS Recorder, TLC
CONSTANTS MaxPulses, MaxSets, MaxStarts, MaxFile, Flush, Once
VARIABLES files,     \* finished files [a, b, i, on : pulses in it on disk, added]
          want,      \* pulses taken while the flag was read as on and their configuration is recorded
          sets, starts
mvars == <<rvars, files, want, sets, starts>>
h == <<files, want, sets, starts>>
Init == RInit([max |-> MaxFile], FALSE, 1) /\ files = <<>> /\ want = {} /\ sets = 0 /\ starts = 0
User == \/ starts < MaxStarts /\ Start /\ starts' = starts + 1 /\ files' = <<>> /\ want' = {} /\ UNCHANGED sets
        \/ Len(pulses) < MaxPulses /\ UNCHANGED h
           /\ LET L == IF Len(pulses) = 0 THEN [c |-> 0, i |-> FirstId - 1, t |-> 0] ELSE pulses[Len(pulses)] IN
              \E d \in 0..1 : Feed((L.c + d) % 2, L.i + d, L.t + 1)
        \/ UNCHANGED h /\ \E k \in 1..Len(pulses) : k \notin used /\ (k = 1 \/ k - 1 \in used \/ k = Len(pulses)) /\ Use(k)
        \/ sets < MaxSets /\ sets' = sets + 1 /\ UNCHANGED <<files, want, starts>> /\ Cardinality(rec) = 1 /\ Setting(TRUE \notin rec)
        \/ UNCHANGED h /\ Cardinality(rec) = 2 /\ \E v \in rec : v # was /\ Set(v)
        \/ sets < MaxSets /\ sets' = sets + 1 /\ UNCHANGED <<files, want, starts>> /\ Cardinality(kind) = 1 /\ SettingKind(3 - CHOOSE k \in kind : TRUE)
        \/ UNCHANGED h /\ Cardinality(kind) = 2 /\ \E v \in kind : SetKind(v)
        \/ UNCHANGED h /\ Stopping
        \/ UNCHANGED h /\ Stopped
Engine == \/ Take /\ UNCHANGED h
          \/ Write /\ UNCHANGED h
          \* a file can only be closed with all of it written
          \/ /\ Close(file.i, file.k, file.a, file.b) /\ (Flush => disk = file.b)
             /\ files' = Append(files, [a |-> file.a, b |-> file.b, i |-> file.i, on |-> disk, added |-> 0]) /\ UNCHANGED <<want, sets, starts>>
          \/ Report /\ files' = [files EXCEPT ![Len(files)].added = @ + 1] /\ UNCHANGED <<want, sets, starts>>
          \/ (\E k \in kk : Open(P.t, k)) /\ UNCHANGED h
          \/ Skip /\ UNCHANGED h
          \* a second reading of the flag (negative control)
          \/ /\ Put /\ (~Once => TRUE) /\ UNCHANGED <<files, sets, starts>>
             /\ want' = IF w /\ P.i >= FirstId THEN want \cup {taken + 1} ELSE want
          \/ /\ ~Once /\ pc = "put" /\ \E v \in rec : v # w /\ w' = v /\ UNCHANGED <<cf, kk, pulses, used, taken, rec, kind, pc, was, slot, n, file, disk, phase, h>>
Next == User \/ Engine
Spec == Init /\ [][Next]_mvars
Fair == Spec /\ WF_mvars(Engine) /\ WF_mvars(Stopped /\ UNCHANGED h)
In(k) == Cardinality({f \in 1..Len(files) : files[f].a <= k /\ k <= files[f].b}) + (IF file # None /\ file.a <= k /\ k <= file.b THEN 1 ELSE 0)
ExactlyOnce == \A k \in 1..taken : In(k) = IF k \in want THEN 1 ELSE 0
InOrder == \A f \in 2..Len(files) : files[f].a > files[f - 1].b
OneConfig == RInv /\ \A f \in 1..Len(files) : \A k \in files[f].a..files[f].b : pulses[k].i = files[f].i
Bounded == \A f \in 1..Len(files) : files[f].b - files[f].a < MaxFile /\ files[f].b >= files[f].a
Whole == \A f \in 1..Len(files) : files[f].on = files[f].b
Told == \A f \in 1..Len(files) : files[f].added = 1 \/ (f = Len(files) /\ pc \in {"report", "report-"} /\ files[f].added = 0)
Off == phase = "off" => file = None
Ends == phase = "stopping" ~> phase = "off"
\* reached on purpose
NeverFull == ~(n >= MaxFile /\ file # None)
NeverToggle == ~(Len(files) > 0 /\ pc = "next" /\ w # was)
NeverStopOpen == ~AtStop
=========================================================================
