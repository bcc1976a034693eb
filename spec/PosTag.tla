----------------------------- MODULE PosTag -----------------------------
(* The position engine as its users see it. Position reports 0, 1, 2, ... and pulses 0, 1, 2, ...
   arrive in any interleaving; the pulses are tagged in turn, each as soon as the reports around it
   are in; new sweeps enter new configurations. Angles of reports are in eighths of a degree, those of
   pulses in 1/128; times are integers, and reports are 1, 2, 4, 8 or 16 apart so that interpolation is exact.
     cdepth   slots of the configuration ring     gates   the gate count before the first pulse *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

VARIABLES cf, pos, pul, at, ntag, m1, tg, conf, ncfg, made, from
pvars == <<cf, pos, pul, at, ntag, m1, tg, conf, ncfg, made, from>>

SweepMiddle == 1
SweepBegin == 2
SweepEnd == 4
Has(m, b) == (m & b) # 0
Flag(c, b) == IF c THEN b ELSE 0
\* a report: [t, az, el, f, saz, sel, vaz, vel], f = <<az sweep, az point, az complete, el sweep, el point, el complete, active>>
Completes(p) == p.f[3] = 1 \/ p.f[6] = 1
Active(p) == p.f[7] = 1
Type(p) == IF p.f[5] = 1 /\ p.f[1] = 1 THEN 32          \* PPI
           ELSE IF p.f[2] = 1 /\ p.f[4] = 1 THEN 64     \* RHI
           ELSE IF p.f[2] = 1 /\ p.f[5] = 1 THEN 96     \* point
           ELSE 0
TypeOf(m) == m & 96

\* conf: the newest configuration; ncfg: how many there have been; from: the first made for the pulse in hand
PTInit(c) ==
    /\ cf = c /\ pos = << >> /\ pul = << >> /\ at = 0 /\ ntag = 0
    /\ m1 = SweepEnd /\ tg = c.gates
    /\ conf = [saz |-> 0, sel |-> 0, gates |-> 0, size |-> 0, marker |-> 0, snr |-> 100]
    /\ ncfg = 1 /\ made = 0 /\ from = 0

Report(n, p) == /\ n = Len(pos)
                /\ n > 0 => p.t > pos[n].t
                /\ pos' = Append(pos, p)
                /\ UNCHANGED <<cf, pul, at, ntag, m1, tg, conf, ncfg, made, from>>
Feed(n, t, gates, size) ==
    /\ n = Len(pul)
    /\ pul' = Append(pul, [t |-> t, gates |-> gates, size |-> size])
    /\ UNCHANGED <<cf, pos, at, ntag, m1, tg, conf, ncfg, made, from>>

\* the pulse in hand is number ntag; the reports around it are b and b + 1 (counting from 1)
Later(t) == pos # << >> /\ pos[Len(pos)].t > t
RECURSIVE Seek(_, _)
Seek(j, t) == IF pos[j + 1].t <= t THEN Seek(j + 1, t) ELSE j
InHand == pul[ntag + 1]
CanTag == ntag < Len(pul) /\ Later(InHand.t)
B == Seek(at, InHand.t)
Before == pos[B]
After == pos[B + 1]
\* at: the report before the previous pulse; reports gone by since then
Passed == (at + 1)..B

\* a sweep ends where the antenna reported its completion since the last pulse, or ceased to scan; what
\* follows an end begins a sweep if the antenna scans, which after a completion shows in the next report
Mode(p) == <<p.f[1], p.f[2], p.f[4], p.f[5]>>
Continues == Active(After) /\ Mode(After) = Mode(Before)
Marker ==
    LET mid == Active(Before) /\ ~(Passed = {} /\ Completes(Before) /\ ~Continues)
        open == Has(m1, SweepMiddle) /\ ~Has(m1, SweepEnd)
        comp == Passed # {} /\ (Completes(Before) \/ (open /\ \E j \in Passed : Completes(pos[j])))
        end == comp \/ (open /\ ~mid)
        beg == mid /\ ~open
    IN Flag(mid, SweepMiddle) + Flag(beg, SweepBegin) + Flag(end, SweepEnd) + Type(Before)

\* the configurations a pulse asks for
NewSweep == Has(Marker, SweepBegin) \/ TypeOf(Marker) # TypeOf(m1)
SweepConf == [conf EXCEPT !.saz = After.saz, !.sel = After.sel, !.gates = InHand.gates, !.size = InHand.size, !.marker = Marker]
Needs == (IF NewSweep THEN <<SweepConf>> ELSE << >>)
         \o (IF InHand.gates # tg THEN <<[conf EXCEPT !.gates = InHand.gates]>> ELSE << >>)

\* configuration c enters slot k with identity id; one that changes the threshold comes from elsewhere
Enter(k, id, c) ==
    /\ k = ncfg % cf.cdepth /\ id = ncfg
    /\ conf' = c
    /\ ncfg' = ncfg + 1
    /\ IF c.snr # conf.snr
         THEN /\ [c EXCEPT !.snr = conf.snr] = conf
              /\ UNCHANGED <<made, from>>
         ELSE /\ CanTag
              /\ made < Len(Needs) /\ c = Needs[made + 1]
              /\ made' = made + 1
              /\ from' = ncfg
    /\ UNCHANGED <<cf, pos, pul, at, ntag, m1, tg>>

Abs(x) == IF x < 0 THEN -x ELSE x
Minor(d) == IF d > 1440 THEN d - 2880 ELSE IF d < -1440 THEN d + 2880 ELSE d
Between(a, b) == 16 * a + (((InHand.t - Before.t) * Minor(b - a) * 16) \div (After.t - Before.t))

\* r: what is on the pulse when it is declared to have a position
Tag(n, r) ==
    /\ n = ntag /\ CanTag /\ B > 0
    /\ made = Len(Needs)
    /\ r.marker = Marker
    /\ r.az = Between(Before.az, After.az) % (16 * 2880)
    /\ r.el = Between(Before.el, After.el)
    /\ r.vaz = Before.vaz /\ r.vel = Before.vel
    /\ r.raw = <<B - 1, 100000 + B - 1>>
    \* the configuration of its sweep, or one entered since then by someone else
    /\ \E i \in (IF made > 0 THEN from ELSE from)..(ncfg - 1) : i % cf.cdepth = r.cfg
    /\ ntag' = n + 1 /\ m1' = Marker /\ tg' = InHand.gates /\ at' = B
    /\ made' = 0
    /\ UNCHANGED <<cf, pos, pul, conf, ncfg, from>>

\* in the end every pulse followed by a report has been tagged
Settled == ~CanTag
=========================================================================
