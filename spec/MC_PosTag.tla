---------------------------- MODULE MC_PosTag ----------------------------
(* A small closed position engine: reports two ticks apart whose completion flags come while the antenna
   scans, pulses at any times. out: what was tagged; done: the number of configurations at that time *)
EXTENDS PosTag, TLC
CONSTANTS NP, NU, Types
VARIABLE out
mvars == <<pvars, out>>
Init == PTInit([cdepth |-> 99, gates |-> 1]) /\ out = << >>
F(ty) == IF ty = 32 THEN [s |-> 1, p |-> 0, es |-> 0, ep |-> 1] ELSE [s |-> 0, p |-> 1, es |-> 1, ep |-> 0]
Rep == /\ Len(pos) < NP
       /\ \E a \in 0..1, c \in 0..1, ty \in Types :
            /\ c = 1 => a = 1
            \* the kind of scan changes between sweeps only
            /\ (pos # << >> /\ pos[Len(pos)].f[7] = 1 /\ pos[Len(pos)].f[3] = 0 /\ a = 1) => Type(pos[Len(pos)]) = ty
            /\ LET f == F(ty) IN
               Report(Len(pos), [t |-> 2 * Len(pos), az |-> (2876 + 4 * Len(pos)) % 2880, el |-> 16, f |-> <<f.s, f.p, c, f.es, f.ep, 0, a>>,
                                 saz |-> Len(pos), sel |-> 0, vaz |-> 0, vel |-> 0])
       /\ UNCHANGED out
Fed == /\ Len(pul) < NU
       /\ \E t \in (IF pul = << >> THEN 0 ELSE pul[Len(pul)].t + 1)..(2 * NP - 2) : Feed(Len(pul), t, 1, 1)
       /\ UNCHANGED out
Conf == /\ CanTag /\ made < Len(Needs) /\ Enter(ncfg % 99, ncfg, Needs[made + 1]) /\ UNCHANGED out
Tagged == /\ CanTag /\ B > 0
          /\ Tag(ntag, [marker |-> Marker, az |-> Between(Before.az, After.az) % 46080, el |-> 256, vaz |-> 0, vel |-> 0,
                        raw |-> <<B - 1, 99999 + B>>, cfg |-> (ncfg - 1) % 99])
          /\ out' = Append(out, [b |-> B, m |-> Marker, c |-> ncfg, az |-> Between(Before.az, After.az) % 46080])
Next == Rep \/ Fed \/ Conf \/ Tagged
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Conf) /\ WF_mvars(Tagged)

N == DOMAIN out
Beg(i) == Has(out[i].m, SweepBegin)
End(i) == Has(out[i].m, SweepEnd)
Mid(i) == Has(out[i].m, SweepMiddle)
Brackets == \A i \in N : pos[out[i].b].t <= pul[i].t /\ pul[i].t < pos[out[i].b + 1].t
North == \A i \in N : out[i].az \in 0..46079
\* begins and ends take turns
Turns == \A i, j \in N : i < j =>
           /\ (Beg(i) /\ Beg(j)) => \E k \in i..(j - 1) : End(k)
           /\ (End(i) /\ End(j)) => \E k \in (i + 1)..j : Beg(k)
\* a pulse is within a sweep exactly while the antenna scans
\* (or has completed one and goes on to other things)
Within == \A i \in N : Mid(i) = (Active(pos[out[i].b]) /\ ~(i > 1 /\ out[i - 1].b = out[i].b /\ Completes(pos[out[i].b]) /\ ~(Active(pos[out[i].b + 1]) /\ Mode(pos[out[i].b + 1]) = Mode(pos[out[i].b]))))
\* every pulse within a sweep has its beginning before it and no end in between
Begun == \A i \in N : Mid(i) => \E k \in 1..i : Beg(k) /\ \A n \in k..(i - 1) : ~End(n)
\* no completion of a sweep that has pulses goes unmarked: the sweep ends with the next pulse
Ended == \A i \in N : (i > 1 /\ Mid(i - 1) /\ ~End(i - 1) /\ \E j \in (out[i - 1].b + 1)..out[i].b : Completes(pos[j])) => End(i)
\* and sweeps do not end for any other reason than that or the antenna ceasing to scan
Reason == \A i \in N : End(i) => \/ \E j \in (IF i = 1 THEN 1 ELSE out[i - 1].b + 1)..out[i].b : Completes(pos[j])
                                 \/ (i > 1 /\ Mid(i - 1) /\ ~Mid(i))
\* one configuration per sweep, a new one for each
OneConf == \A i \in N : i > 1 => IF Beg(i) THEN out[i].c > out[i - 1].c
                                 ELSE out[i].c = out[i - 1].c \/ TypeOf(out[i].m) # TypeOf(out[i - 1].m)
\* (an interruption that no pulse falls into goes unnoticed)
InSweep == \A i \in N : (i > 1 /\ Mid(i) /\ ~Beg(i) /\ ~End(i) /\ \A j \in out[i - 1].b..out[i].b : Active(pos[j])) => out[i].c = out[i - 1].c
AllTagged == [](CanTag /\ B > 0 => <>(~CanTag))
NoSingle == \A i \in N : ~(Beg(i) /\ End(i))
NoGap == \A i \in N : i > 1 => out[i].b - out[i - 1].b < 2
==========================================================================
