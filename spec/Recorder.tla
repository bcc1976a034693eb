----------------------------- MODULE Recorder -----------------------------
(* Recording of raw pulses: pulses are taken in order, each once it is completely processed.  A pulse goes  *)
(* by one reading of the record flag.  The file ends and the next one begins with a pulse if it has another *)
(* configuration, if the file is full or if recording has been turned on or off; the file also ends when    *)
(* the recorder stops.  What has been taken is in the file when it ends, then the file is reported once.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS FirstId      \* configurations before this one are those of the start-up and are not recorded
VARIABLES cf,          \* max : pulses per file
          pulses,      \* fed pulses [c : slot of the configuration, i : its identity, t : time]
          used,        \* those completely processed, 1..Len(pulses)
          taken,       \* pulses taken by the recorder
          rec, kind,   \* possible values of the record flag and of the kind of data
          kk,          \* kinds there have been since a pulse was taken
          pc, w,       \* what the recorder is doing, its reading of the flag
          was, slot, n,\* flag and configuration slot of the current run of pulses and their number
          file,        \* the open file, if any : [a, b, i, k]
          disk,        \* pulses of it written, the rest is in the cache
          phase        \* off, on, stopping
rvars == <<cf, pulses, used, taken, rec, kind, kk, pc, w, was, slot, n, file, disk, phase>>
None == [a |-> 0, b |-> -1, i |-> 0, k |-> 0]

RInit(c, r, k) == /\ cf = c /\ pulses = <<>> /\ used = {} /\ taken = 0 /\ rec = {r} /\ kind = {k} /\ kk = {k} /\ pc = "idle" /\ w = FALSE
                  /\ was = FALSE /\ slot = -1 /\ n = 0 /\ file = None /\ disk = 0 /\ phase = "off"

\* the user
Start == /\ phase = "off" /\ phase' = "on" /\ pulses' = <<>> /\ used' = {} /\ taken' = 0 /\ was' = FALSE /\ slot' = -1 /\ n' = 0
         /\ UNCHANGED <<cf, kk, rec, kind, pc, w, file, disk>>
Feed(c, i, t) == /\ phase # "off" /\ pulses' = Append(pulses, [c |-> c, i |-> i, t |-> t])
                 /\ UNCHANGED <<cf, kk, used, taken, rec, kind, pc, w, was, slot, n, file, disk, phase>>
Use(k) == /\ phase # "off" /\ k \in 1..Len(pulses) /\ used' = used \cup {k}
          /\ UNCHANGED <<cf, kk, pulses, taken, rec, kind, pc, w, was, slot, n, file, disk, phase>>
Setting(v) == /\ rec' = rec \cup {v} /\ UNCHANGED <<cf, kk, pulses, used, taken, kind, pc, w, was, slot, n, file, disk, phase>>
Set(v) == /\ v \in rec /\ rec' = {v} /\ UNCHANGED <<cf, kk, pulses, used, taken, kind, pc, w, was, slot, n, file, disk, phase>>
SettingKind(v) == /\ kind' = kind \cup {v} /\ kk' = kk \cup {v} /\ UNCHANGED <<cf, pulses, used, taken, rec, pc, w, was, slot, n, file, disk, phase>>
SetKind(v) == /\ v \in kind /\ kind' = {v} /\ UNCHANGED <<cf, kk, pulses, used, taken, rec, pc, w, was, slot, n, file, disk, phase>>
Stopping == /\ phase = "on" /\ phase' = "stopping" /\ UNCHANGED <<cf, kk, pulses, used, taken, rec, kind, pc, w, was, slot, n, file, disk>>
Stopped == /\ phase = "stopping" /\ pc \in {"idle", "done"} /\ file = None /\ phase' = "off" /\ pc' = "idle"
           /\ UNCHANGED <<cf, kk, pulses, used, taken, rec, kind, w, was, slot, n, file, disk>>

\* the recorder
P == pulses[taken + 1]
Splits(v) == P.c # slot \/ n >= cf.max \/ v # was
Opens == w /\ P.i >= FirstId
Take == /\ phase # "off" /\ pc = "idle" /\ taken < Len(pulses) /\ taken + 1 \in used
        /\ \E v \in rec : w' = v /\ kk' = kind /\ pc' = IF ~Splits(v) THEN "put" ELSE IF file # None THEN "close" ELSE "next"
        /\ UNCHANGED <<cf, pulses, used, taken, rec, kind, was, slot, n, file, disk, phase>>
Write == /\ file # None /\ disk < file.b /\ disk' \in disk + 1..file.b
         /\ UNCHANGED <<cf, kk, pulses, used, taken, rec, kind, pc, w, was, slot, n, file, phase>>
AtStop == phase = "stopping" /\ pc = "idle" /\ file # None
\* the file as it is left
Close(i, k, a, b) == /\ pc = "close" \/ AtStop
                     /\ i = file.i /\ k = file.k /\ a = file.a /\ b = file.b
                     /\ pc' = (IF pc = "idle" THEN "report-" ELSE "report") /\ disk' = 0 /\ file' = None
                     /\ UNCHANGED <<cf, kk, pulses, used, taken, rec, kind, w, was, slot, n, phase>>
Report == /\ pc \in {"report", "report-"} /\ pc' = IF pc = "report" THEN "next" ELSE "done"
          /\ UNCHANGED <<cf, kk, pulses, used, taken, rec, kind, w, was, slot, n, file, disk, phase>>
Open(t, k) == /\ pc = "next" /\ Opens /\ t = P.t /\ k \in kk
              /\ file' = [a |-> taken + 1, b |-> taken, i |-> P.i, k |-> k] /\ disk' = taken /\ pc' = "put"
              /\ was' = w /\ slot' = P.c /\ n' = 0
              /\ UNCHANGED <<cf, kk, pulses, used, taken, rec, kind, w, phase>>
Skip == /\ pc = "next" /\ ~Opens /\ pc' = "put" /\ was' = w /\ slot' = P.c /\ n' = 0
        /\ UNCHANGED <<cf, kk, pulses, used, taken, rec, kind, w, file, disk, phase>>
Put == /\ pc = "put" /\ taken' = taken + 1 /\ n' = n + 1 /\ pc' = "idle"
       /\ file' = IF file = None THEN file ELSE [file EXCEPT !.b = @ + 1]
       /\ UNCHANGED <<cf, kk, pulses, used, rec, kind, w, was, slot, disk, phase>>
Rest == phase = "on" /\ pc = "idle" /\ taken = Len(pulses)
RInv == (file # None => (file.b - file.a < cf.max /\ \A k \in file.a..file.b : pulses[k].i = file.i)) /\ taken <= Len(pulses)
=========================================================================
