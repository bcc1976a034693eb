----------------------------- MODULE MC_Wire -----------------------------
(* The send routine step by step, with its lock and its attempts, on one connection; the stream is what the peer gets. *)
EXTENDS Wire, FiniteSets, TLC
CONSTANTS Threads, Msgs, Each, Patience, Locked, Closes
VARIABLES stream, lock, pc, n, gone, told
mvars == <<wvars, stream, lock, pc, n, gone, told>>
Message(t, k) == [j \in 1..((t + k) % 3) + 1 |-> 100 * t + 10 * k + j]
MInit == WInit({1}, Threads) /\ stream = <<>> /\ lock = 0 /\ pc = [t \in Threads |-> "idle"] /\ n = [t \in Threads |-> 0] /\ gone = FALSE /\ told = {}
Go(t, x) == pc' = [pc EXCEPT ![t] = x]
Begin(t) == pc[t] = "idle" /\ n[t] < Each /\ Call(t, 1, Message(t, n[t])) /\ Go(t, "lock") /\ UNCHANGED <<stream, lock, n, gone, told>>
Acquire(t) == pc[t] = "lock" /\ (lock = 0 \/ ~Locked) /\ lock' = t /\ Go(t, "send") /\ UNCHANGED <<wvars, stream, n, gone, told>>
\* what the network does with an attempt
Take(t) == /\ pc[t] = "send" /\ ~gone /\ pend[t].sent < Len(pend[t].msg)
           /\ \E k \in 1..Len(pend[t].msg) - pend[t].sent :
                 LET b == SubSeq(pend[t].msg, pend[t].sent + 1, pend[t].sent + k) IN
                 /\ stream' = stream \o b
                 /\ pend' = [pend EXCEPT ![t].sent = @ + k, ![t].idle = 0]
           /\ UNCHANGED <<cut, lock, pc, n, gone, told>>
Refuse(t) == /\ pc[t] = "send" /\ ~gone /\ pend[t].sent < Len(pend[t].msg) /\ pend[t].idle < Patience
             /\ NoGo(t) /\ UNCHANGED <<stream, lock, pc, n, gone, told>>
Break(t) == /\ pc[t] = "send" /\ pend[t].sent < Len(pend[t].msg) /\ ~pend[t].hard
            /\ Fail(t) /\ Go(t, "out") /\ UNCHANGED <<stream, lock, n, gone, told>>
GiveUp(t) == pc[t] = "send" /\ pend[t].idle >= Patience /\ Go(t, "out") /\ UNCHANGED <<wvars, stream, lock, n, gone, told>>
Done(t) == pc[t] = "send" /\ pend[t].sent = Len(pend[t].msg) /\ Go(t, "out") /\ UNCHANGED <<wvars, stream, lock, n, gone, told>>
Out(t) == /\ pc[t] = "out" /\ Go(t, "idle") /\ n' = [n EXCEPT ![t] = @ + 1] /\ lock' = 0 /\ UNCHANGED stream
          /\ gone' = (gone \/ (Closes /\ Partial(t)))
          /\ LET all == pend[t].sent = Len(pend[t].msg) IN
                /\ Return(t, IF all THEN pend[t].sent ELSE -1, Patience)
                /\ told' = IF all THEN told \cup {<<t, n[t]>>} ELSE told
\* a connection that was given up refuses at once
Dead(t) == pc[t] = "send" /\ gone /\ pend[t].sent < Len(pend[t].msg) /\ Fail(t) /\ Go(t, "out") /\ UNCHANGED <<stream, lock, n, gone, told>>
MNext == \E t \in Threads : Begin(t) \/ Acquire(t) \/ Take(t) \/ Refuse(t) \/ Break(t) \/ GiveUp(t) \/ Done(t) \/ Out(t) \/ Dead(t)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in Threads : SF_mvars(Acquire(t)) /\ WF_mvars(Begin(t) \/ Take(t) \/ Refuse(t) \/ GiveUp(t) \/ Done(t) \/ Out(t) \/ Dead(t))
\* the stream is made of whole messages, but for the last
Heads == {<<t, k>> \in Threads \X (0..Each) : TRUE}
RECURSIVE Whole(_, _)
Whole(s, used) == \/ s = <<>>
                  \/ \E h \in Heads \ used : LET m == Message(h[1], h[2]) IN
                       \/ Len(s) < Len(m) /\ s = SubSeq(m, 1, Len(s))
                       \/ Len(s) >= Len(m) /\ SubSeq(s, 1, Len(m)) = m /\ Whole(SubSeq(s, Len(m) + 1, Len(s)), used \cup {h})
Framed == Whole(stream, {})
\* a call that claimed success is in the stream, whole
Has(h) == LET m == Message(h[1], h[2]) IN \E k \in 0..Len(stream) - Len(m) : SubSeq(stream, k + 1, k + Len(m)) = m
Honest == \A h \in told : Has(h)
Ends == <>(\A t \in Threads : n[t] = Each)
NeverCut == ~cut[1]
NeverResumed == \A t \in Threads : ~(pc[t] = "out" /\ pend[t].worst > 0 /\ pend[t].sent = Len(pend[t].msg))
===========================================================================
