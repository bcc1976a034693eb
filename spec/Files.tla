------------------------------- MODULE Files -------------------------------
(* Disk retention (RKFileManager). Files of the managed folders (kinds 1..3) are removed oldest first while the    *)
(* recorded usage of their folder exceeds its limit; logs (kind 4) are removed by age; anything else stays.        *)
EXTENDS Integers, Sequences, FiniteSets, Functions
CONSTANTS Mode,                   \* "good", or one of the wrong ways of doing it
          Kinds                   \* the managed folders, 1..3
VARIABLES limit,                  \* of every kind
          maxAge,                 \* of logs, in days
          info,                   \* what every file that ever was is: its kind k, day folder d, time t, and whether it is one of ours
          size,                   \* its size, at present
          disk,                   \* the files there are
          dirs,                   \* the day folders there are, <<kind, day>>
          rec,                    \* the size recorded, of every file that is recorded
          usage,                  \* the sum of these, of every folder
          st,                     \* of every kind: "off", "boot" (the folder is not listed yet), "on"
          gone,                   \* what the manager has just removed
          known,                  \* files found at start-up or accepted later, and not removed
          last                    \* order of arrival (only of interest to one of the wrong ways)
fvars == <<limit, maxAge, info, size, disk, dirs, rec, usage, st, gone, known, last>>
FInit(lim, age) ==
    /\ limit = lim /\ maxAge = age
    /\ info = << >> /\ size = << >> /\ disk = {} /\ dirs = {} /\ rec = << >> /\ usage = [k \in Kinds |-> 0]
    /\ st = [k \in Kinds |-> "off"] /\ gone = {} /\ known = {} /\ last = << >>
\* files are numbered; a number that is not in use stands for Nothing, and a file that is not recorded has a size of -1
Nothing == [k |-> -1, d |-> 0, t |-> 0, ours |-> FALSE]
Rec == {f \in 1..Len(rec) : rec[f] >= 0}
Of(k) == {f \in 1..Len(rec) : rec[f] >= 0 /\ info[f].k = k}
SumSize(s) == FoldFunctionOnSet(+, 0, size, s)
Sum(k) == FoldFunctionOnSet(+, 0, rec, Of(k))
Usage(k) == usage[k]
Put(fn, f, v) == IF f <= Len(fn) THEN [fn EXCEPT ![f] = v] ELSE Append(fn, v)
Only(fn, s, v) == [x \in 1..Len(fn) |-> IF x \in s THEN v ELSE fn[x]]
----------------------------------------------------------------------------
Forget(f) == info' = [info EXCEPT ![f] = Nothing] /\ size' = [size EXCEPT ![f] = 0]
\* The world
Create(f, k, d, t, ours, sz) ==
    /\ f \in 1..Len(info) + 1 /\ f \notin disk /\ (f <= Len(info) => rec[f] < 0)
    /\ rec' = Put(rec, f, -1)
    /\ info' = Put(info, f, [k |-> k, d |-> d, t |-> t, ours |-> ours])
    /\ size' = Put(size, f, sz)
    /\ disk' = disk \cup {f}
    /\ dirs' = IF k \in Kinds /\ d > 0 THEN dirs \cup {<<k, d>>} ELSE dirs
    /\ gone' = {} /\ UNCHANGED <<limit, maxAge, usage, st, known, last>>
Grow(f, sz) == f \in disk /\ size' = [size EXCEPT ![f] = sz] /\ gone' = {} /\ UNCHANGED <<limit, maxAge, info, disk, dirs, rec, usage, st, known, last>>
Vanish(f) == f \in disk /\ disk' = disk \ {f} /\ (IF rec[f] >= 0 THEN UNCHANGED <<info, size>> ELSE Forget(f)) /\ gone' = {} /\ UNCHANGED <<limit, maxAge, dirs, rec, usage, st, known, last>>
----------------------------------------------------------------------------
\* The manager
Begin == (\A k \in Kinds : st[k] = "off") /\ st' = [k \in Kinds |-> "boot"] /\ gone' = {} /\ UNCHANGED <<limit, maxAge, info, size, disk, dirs, rec, usage, known, last>>
\* everything of ours that is there is managed from now on
Boot(k) ==
    /\ st[k] = "boot"
    /\ LET found == IF Mode = "skip" THEN {} ELSE {f \in disk : info[f].k = k /\ info[f].ours}
       IN /\ rec' = [f \in 1..Len(rec) |-> IF Mode # "skip" /\ info[f].k = k /\ info[f].ours /\ f \in disk THEN size[f] ELSE rec[f]]
          /\ usage' = [usage EXCEPT ![k] = SumSize(found)] /\ last' = last
          /\ known' = known \cup {f \in disk : info[f].k = k /\ info[f].ours}
    /\ st' = [st EXCEPT ![k] = "on"]
    /\ gone' = {} /\ UNCHANGED <<limit, maxAge, info, size, disk, dirs>>
Acceptable(f, k) == k \in Kinds /\ st[k] = "on" /\ f \in disk /\ info[f].k = k /\ info[f].ours
Add(f, k) ==
    /\ Acceptable(f, k)
    /\ LET full == Mode = "ring" /\ rec[f] < 0 /\ Cardinality(Of(k)) = 2
           old == IF full THEN {CHOOSE g \in Of(k) : \A x \in Of(k) : info[g].t <= info[x].t} ELSE {}
           r == IF full THEN Only(rec, old, -1) ELSE rec
       IN /\ rec' = Put(r, f, size[f])
          /\ usage' = [usage EXCEPT ![k] = @ - (IF rec[f] >= 0 THEN rec[f] ELSE 0) - (IF full THEN rec[CHOOSE g \in old : TRUE] ELSE 0) + size[f]]
          /\ last' = IF Mode # "arrival" THEN last ELSE Append(SelectSeq(last, LAMBDA g : g # f), f)
    /\ known' = known \cup {f}
    /\ gone' = {} /\ UNCHANGED <<limit, maxAge, info, size, disk, dirs, st>>
Oldest(f, k) == IF Mode = "arrival" THEN (IF last = << >> THEN TRUE ELSE last[1] = f) ELSE \A g \in Of(k) : info[f].t <= info[g].t
Remove(f, k) ==
    /\ k \in Kinds /\ st[k] = "on" /\ (IF Mode = "atlimit" THEN Usage(k) >= limit[k] ELSE Usage(k) > limit[k]) /\ f \in Of(k) /\ Oldest(f, k)
    /\ disk' = disk \ {f} /\ rec' = [rec EXCEPT ![f] = -1] /\ usage' = [usage EXCEPT ![k] = @ - rec[f]]
    /\ gone' = disk \cap {f} /\ known' = known \ {f} /\ Forget(f) /\ last' = SelectSeq(last, LAMBDA g : g # f)
    /\ UNCHANGED <<limit, maxAge, dirs, st>>
In(k, d) == {f \in disk : info[f].k = k /\ info[f].d = d}
RemoveDir(k, d) ==
    /\ <<k, d>> \in dirs /\ st[k] # "off" /\ ((Mode = "whole" /\ Of(k) \cap In(k, d) = {}) \/ In(k, d) = {})
    /\ dirs' = dirs \ {<<k, d>>} /\ disk' = disk \ In(k, d) /\ gone' = In(k, d)
    /\ UNCHANGED <<limit, maxAge, info, size, rec, usage, st, known, last>>
RemoveLog(f) ==
    /\ f \in disk /\ info[f].k = 4 /\ info[f].ours /\ info[f].t >= maxAge /\ (\A k \in Kinds : st[k] = "on")
    /\ disk' = disk \ {f} /\ gone' = {f} /\ Forget(f)
    /\ UNCHANGED <<limit, maxAge, dirs, rec, usage, st, known, last>>
Stop == (\A k \in Kinds : st[k] = "on") /\ st' = [k \in Kinds |-> "off"] /\ rec' = [f \in 1..Len(rec) |-> -1] /\ usage' = [k \in Kinds |-> 0] /\ known' = {} /\ last' = << >>
    /\ gone' = {} /\ UNCHANGED <<limit, maxAge, info, size, disk, dirs>>
----------------------------------------------------------------------------
\* At rest
Settled(k) == st[k] = "on" => Usage(k) <= limit[k] \/ Of(k) = {}
----------------------------------------------------------------------------
\* Properties
OnlyOurs == [][\A f \in gone' \cap disk : info[f].ours]_fvars
NoneForgotten == \A f \in known : rec[f] >= 0
Counted == \A k \in Kinds : usage[k] = Sum(k)
NothingElse == \A f \in Rec : info[f].ours /\ info[f].k \in Kinds
Recorded(f) == f \in known                                             \* by what has been asked of the manager
Total(k) == FoldFunctionOnSet(+, 0, rec, {f \in known : rec[f] >= 0 /\ info[f].k = k})
Justified == [][\A f \in gone' \cap disk :
                   IF info[f].k = 4 THEN info[f].t >= maxAge
                   ELSE /\ Recorded(f) /\ Total(info[f].k) > limit[info[f].k]
                        /\ \A g \in known : info[g].k = info[f].k => info[f].t <= info[g].t]_fvars
DirsEmpty == [][\A x \in dirs \ dirs' : In(x[1], x[2]) = {}]_fvars
============================================================================
