---------------------------- MODULE T_Recorder ----------------------------
EXTENDS Recorder, TLC, Json, IOUtils
VARIABLES tr, l, made
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].ev
E == Ev[l]
C == Traces[tr].cf
Is(e) == l <= Len(Ev) /\ E[1] = e /\ l' = l + 1 /\ UNCHANGED tr
tvars == <<tr, l, made>>
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ made = 0 /\ RInit([max |-> C.max], C.rec, C.kind)
Same == UNCHANGED made
TStep ==
    \/ Is("g") /\ Start /\ Same
    \/ Is("P") /\ Feed(E[2], E[3], E[4]) /\ Same
    \/ Is("U") /\ Use(E[2]) /\ Same
    \* how far the recorder says it is, give or take
    \/ Is("K") /\ taken - E[2] \in -1..2 /\ UNCHANGED rvars /\ Same
    \/ Is("r") /\ Setting(E[2]) /\ Same
    \/ Is("R") /\ Set(E[2]) /\ Same
    \/ Is("t") /\ SettingKind(E[2]) /\ Same
    \/ Is("T") /\ SetKind(E[2]) /\ Same
    \/ Is("s") /\ Stopping /\ Same
    \/ Is("S") /\ Stopped /\ Same
    \* everything taken, no file while recording is off
    \/ Is("Q") /\ Rest /\ (rec = {FALSE} => file = None \/ was) /\ UNCHANGED rvars /\ Same
    \* a file begins, named after its first pulse and its kind
    \/ Is("O") /\ Open(E[2], E[3]) /\ made' = made + 1
    \* what is in the file: identity of its configuration, kind, first and last pulse
    \/ Is("X") /\ Close(E[2], E[3], E[4], E[5]) /\ Same
    \/ Is("A") /\ E[2] = 1 /\ Report /\ Same
    \* a pulse marked as recorded is one that has been taken into a file
    \/ Is("M") /\ phase # "off" /\ E[2] <= taken /\ pulses[E[2]].i >= FirstId /\ UNCHANGED rvars /\ Same
    \* the files there are
    \/ Is("F") /\ phase = "off" /\ E[2] = made /\ UNCHANGED rvars /\ Same
    \/ l <= Len(Ev) /\ E[1] \in {"O", "X", "Q", "s", "S", "M"} /\ UNCHANGED tvars /\ (Take \/ Skip \/ Put)
    \/ l <= Len(Ev) /\ E[1] \in {"R", "T", "K"} /\ UNCHANGED tvars /\ (Take \/ Skip \/ Put)
    \/ l <= Len(Ev) /\ E[1] = "end" /\ l' = l + 1 /\ E[2] = 1 /\ UNCHANGED <<tr, made, rvars>>
    \/ l = Len(Ev) + 1 /\ l' = l + 1 /\ PrintT(<<"ACC", Traces[tr].id>>) /\ UNCHANGED <<tr, made, rvars>>
TSpec == TInit /\ [][TStep]_<<tvars, rvars>>
Diag == RInv /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", Traces[tr].id, l>>) ELSE TRUE
=========================================================================
