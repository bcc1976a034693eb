------------------------------ MODULE Rays ------------------------------
(* The moment engine as its users see it. Pulses 0, 1, 2, ... arrive with a beam cell, a position
   (in eighths of a degree) and a marker; runs of pulses become rays 0, 1, 2, ..., which a pool of
   workers completes in any order and which are counted and handed out in order.
     pdepth, rdepth  slots of the pulse and ray rings     cap   most pulses in a ray
     excl    rays do not share their boundary pulses      old   rays kept behind the reader
     hot     pulses arrive faster than they are handled, so some may be skipped *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

VARIABLES cf, fed, win, base, g, ask, ready, nx, nread, ngot, gone
rvars == <<cf, fed, win, base, g, ask, ready, nx, nread, ngot, gone>>

SweepBegin == 2
SweepEnd == 4
Has(m, b) == (m & b) # 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Pulse(n) == win[n - base + 1]
Posted == g.n
Min2(a, b) == IF a < b THEN a ELSE b

RInit(c) ==
    /\ cf = c /\ fed = 0 /\ win = << >> /\ base = 0
    /\ g = [o |-> 0, cnt |-> 0, cell |-> -1, n |-> 0]
    /\ ask = << >> /\ ready = << >> /\ nx = 0 /\ nread = 0 /\ ngot = 0 /\ gone = {}

\* what becomes of the ray in progress when pulse n, p, arrives
Begin(n, p) == IF Has(p.m, SweepBegin) THEN [g EXCEPT !.o = n, !.cnt = 0, !.cell = p.cell] ELSE g
Closes(b, p) == b.cell # p.cell \/ b.cnt = cf.cap - 1 \/ Has(p.m, SweepEnd)
Steps(b, p) == IF cf.excl /\ b.cnt > 1 /\ ~Has(p.m, SweepEnd) THEN b.cnt - 1 ELSE b.cnt

\* p: [cell, az, el, m, comp, cfg, gates]
Feed(n, p) ==
    /\ n = fed
    /\ fed' = n + 1
    /\ win' = Append(win, p)
    /\ LET b == Begin(n, p) IN
         IF Closes(b, p)
           THEN IF Steps(b, p) > 0
                  THEN /\ g' = [o |-> n, cnt |-> 1, cell |-> p.cell, n |-> b.n + 1]
                       /\ ask' = Put(ask, b.n, [o |-> b.o, e |-> b.o + Steps(b, p)])
                  ELSE /\ g' = [o |-> n, cnt |-> 1, cell |-> p.cell, n |-> b.n]
                       /\ UNCHANGED ask
           ELSE /\ g' = [b EXCEPT !.cnt = @ + 1] /\ UNCHANGED ask
    /\ UNCHANGED <<cf, base, ready, nx, nread, ngot, gone>>

RECURSIVE OrMarks(_, _)
OrMarks(o, e) == IF o = e THEN Pulse(e).m ELSE Pulse(o).m | OrMarks(o + 1, e)
Sector(a, b) == LET d == (a - b) % 2880 IN Min2(d, 2880 - d)
\* rays of very few pulses, of a wide span, or of pulses that were not compressed carry no data
Worthy(o, e) == /\ e - o + 1 > 3
                /\ Sector(Pulse(o).az, Pulse(e).az) < 24
                /\ Sector(Pulse(o).el, Pulse(e).el) < 24
                /\ Pulse(o).comp = 1
\* pulses between two sweeps do not meet in a ray
OneSweep(o, e) == \A n \in o..e : /\ n > o => ~Has(Pulse(n).m, SweepBegin)
                                  /\ n < e => ~Has(Pulse(n).m, SweepEnd)

\* ray t, of pulses o to e, is complete: r has what is on its label
Ready(t, slot, o, e, r) ==
    /\ t \notin DOMAIN ready
    /\ slot = t % cf.rdepth
    /\ ~cf.hot => (t \in DOMAIN ask /\ ask[t] = [o |-> o, e |-> e])
    /\ cf.hot => /\ o <= e /\ e < fed /\ OneSweep(o, e)
                 /\ \A s \in DOMAIN ready : IF s < t THEN ready[s].e <= o ELSE e <= ready[s].o
    /\ e - o + 1 <= cf.cap
    /\ r.pc = e - o + 1
    /\ r.saz = Pulse(o).az /\ r.sel = Pulse(o).el /\ r.eaz = Pulse(e).az /\ r.eel = Pulse(e).el
    /\ r.marker = OrMarks(o, e)
    /\ r.cfg = Pulse(e).cfg /\ r.gates = Pulse(e).gates /\ r.swel = 4 * Pulse(e).cfg
    /\ r.used = 1
    /\ IF Worthy(o, e) THEN r.proc = 1 /\ r.skip = 0 /\ r.first = o /\ r.last = e
                       ELSE r.proc = 0 /\ r.skip = 1
    /\ ready' = Put(ready, t, [o |-> o, e |-> e])
    /\ gone' = gone \ {t}
    /\ UNCHANGED <<cf, fed, win, base, g, ask, nx, nread, ngot>>

\* the ray counter moves on, over complete rays only
Count(x) ==
    /\ x = (nx + 1) % cf.rdepth
    /\ nx \in DOMAIN ready /\ nx \notin gone
    /\ nx' = nx + 1
    /\ UNCHANGED <<cf, fed, win, base, g, ask, ready, nread, ngot, gone>>
\* the next ray is read, and handed to the reader
Read(t) == /\ t = nread /\ t \in DOMAIN ready /\ t \notin gone /\ nread' = t + 1
           /\ UNCHANGED <<cf, fed, win, base, g, ask, ready, nx, ngot, gone>>
Got(t) == /\ t = ngot /\ t < nread /\ ngot' = t + 1
          /\ UNCHANGED <<cf, fed, win, base, g, ask, ready, nx, nread, gone>>
\* slots are given up when a ray of the next round is prepared, or some while after being read
MaxReady == IF DOMAIN ready = {} THEN -1 ELSE CHOOSE m \in DOMAIN ready : \A x \in DOMAIN ready : x <= m
Vacate(t) ==
    /\ t \in DOMAIN ready /\ t \notin gone
    /\ \/ t <= Posted - cf.rdepth /\ ~cf.hot
       \/ t <= nread - 1 - cf.old
       \/ cf.hot
    /\ gone' = gone \cup {t}
    /\ UNCHANGED <<cf, fed, win, base, g, ask, ready, nx, nread, ngot>>

\* when the stream pauses everything asked for has been done
\* every pulse before the ray in progress has been dealt with, be it in a ray or not
Settled(busy, overflows, unused) ==
    /\ busy = 0
    /\ cf.hot \/ (DOMAIN ready = 0..(Posted - 1) /\ overflows = 0)
    /\ cf.hot => IF overflows = 0 THEN DOMAIN ready = 0..(Posted - 1)
                 ELSE ready[MaxReady].e >= fed - 12
    /\ nx = MaxReady + 1
    /\ unused >= IF overflows = 0 THEN g.o ELSE ready[MaxReady].e
    /\ cf.reader => (nread = nx /\ ngot = nread)

\* older pulses are no longer needed
Forget(k) == /\ base' = base + k /\ win' = SubSeq(win, k + 1, Len(win))
========================================================================
