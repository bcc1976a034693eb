------------------------------ MODULE Config ------------------------------
(* The configuration history: a ring of entries. A change is a list of settings; at one moment between    *)
(* its call and its return it appends one entry: the previous entry with the settings applied in order.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES depth, ring,   \* slot -> [id, e]
          cur,           \* slot of the current entry
          op             \* per thread: <<>> when idle, otherwise [s : the settings, id : 0 until appended]
cvars == <<depth, ring, cur, op>>
NFilt == 8
Zero4 == <<0, 0, 0, 0>>
Blank == [el |-> 0, az |-> 0, mk |-> 0, prf0 |-> 0, prf1 |-> 0, gc |-> 0, gs |-> 0, pw |-> 0, n0 |-> 0, n1 |-> 0,
          z0 |-> 0, z1 |-> 0, dc |-> 0, pc |-> 0, snr |-> 0, sqi |-> 0, ring |-> 0, tr |-> 0, wf |-> 0, wd |-> 0, us |-> 0,
          cal |-> [j \in 1..NFilt |-> Zero4], nm |-> <<"", 0>>, vcp |-> <<"", 0>>]
Min2(a, b) == IF a < b THEN a ELSE b
Cut(text, n, cap) == <<text, Min2(n, cap)>>
\* the waveforms and calibrations used to exercise it: name and number of filters; 5 has no filters and 0 is none at all
WName(w) == <<<<"alpha", 5>>, <<"beta", 4>>, <<"gamma", 5>>, <<"delta", 5>>>>[w]
WCount(w) == <<1, 2, 3, 8>>[w]
Good(w) == w \in 1..4
CCount(c) == <<1, 2, 8>>[c]
NameCap == 127
VcpCap == 504
Clear(e) == IF e.wf = 0 THEN 1..NFilt ELSE 1..WCount(e.wf)
Set1(e, s) ==
    LET k == s[1] IN
    CASE k \in {"el", "az", "mk", "gc", "gs", "pw", "dc", "pc", "snr", "sqi", "ring", "tr", "us"} -> [e EXCEPT ![k] = s[2]]
      [] k = "prf" -> [e EXCEPT !.prf0 = s[2]]
      [] k = "dual" -> [e EXCEPT !.prf0 = s[2], !.prf1 = s[3]]
      [] k = "noise" -> [e EXCEPT !.n0 = s[2], !.n1 = s[3]]
      [] k = "zcal" -> [e EXCEPT !.z0 = s[2], !.z1 = s[3]]
      \* a bad waveform is ignored
      [] k = "wf" -> IF Good(s[2]) THEN [e EXCEPT !.wf = s[2], !.nm = WName(s[2])] ELSE e
      [] k = "wd" -> IF Good(s[2]) THEN [e EXCEPT !.wd = s[2]] ELSE e
      [] k = "nm" -> [e EXCEPT !.nm = Cut(s[2], s[3], NameCap)]
      [] k = "vcp" -> IF s[3] = -1 THEN e ELSE [e EXCEPT !.vcp = Cut(s[2], s[3], VcpCap)]
      \* no calibration: zeroes, for as many filters as the waveform has
      [] k = "cal" -> IF s[2] = 0 THEN [e EXCEPT !.cal = [j \in 1..NFilt |-> IF j \in Clear(e) THEN Zero4 ELSE @[j]]]
                      ELSE [e EXCEPT !.cal = [j \in 1..NFilt |-> IF j <= CCount(s[2]) THEN [m \in 1..4 |-> 10 * m * s[2] + j - 1] ELSE @[j]]]
RECURSIVE Apply(_, _)
Apply(e, ss) == IF ss = <<>> THEN e ELSE Apply(Set1(e, Head(ss)), Tail(ss))

CInit(d, n, first) ==
    /\ depth = d /\ ring = [s \in 0..d - 1 |-> [id |-> first - d + s, e |-> Blank]] /\ cur = d - 1
    /\ op = [t \in 1..n |-> <<>>]
Next == (cur + 1) % depth
Call(t, ss) == op[t] = <<>> /\ op' = [op EXCEPT ![t] = [s |-> ss, id |-> 0]] /\ UNCHANGED <<depth, ring, cur>>
Append1(t) ==
    /\ op[t] # <<>> /\ op[t].id = 0
    /\ ring' = [ring EXCEPT ![Next] = [id |-> ring[cur].id + 1, e |-> Apply(ring[cur].e, op[t].s)]]
    /\ cur' = Next /\ op' = [op EXCEPT ![t].id = ring[cur].id + 1] /\ UNCHANGED depth
Return(t) == op[t] # <<>> /\ op[t].id # 0 /\ op' = [op EXCEPT ![t] = <<>>] /\ UNCHANGED <<depth, ring, cur>>
\* with no change under way: the entry of an identity is the slot that has it, none (-1) once it has left the ring
Find(id) == LET S == {s \in 0..depth - 1 : ring[s].id = id} IN IF S = {} THEN -1 ELSE CHOOSE s \in S : TRUE
CInv == /\ \A s, q \in 0..depth - 1 : ring[s].id = ring[q].id => s = q
        /\ \A k \in 0..depth - 1 : ring[(cur - k + depth) % depth].id = ring[cur].id - k
===========================================================================
