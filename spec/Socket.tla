------------------------------ MODULE Socket ------------------------------
(* A web socket client and its peer. The client is in a session from the time its open handler is called until its   *)
(* close handler is. What the peer sends is delivered once, in order; what the client submits is received once, in   *)
(* order; pings and closes are answered.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES conn, ok, sent, dl, pings, pg, clo, ending, subs, run, room, ck
\* conn: of the client's session; ok: how far the peer has come with the handshake
wvars == <<conn, ok, sent, dl, pings, pg, clo, ending, subs, run, room, ck>>
NewSub == [st |-> "none", c |-> 0, r |-> 0, old |-> FALSE]      \* c, r: when it was called, when it returned
WInit(S, m) == /\ conn = "none" /\ ok = "none" /\ sent = <<>> /\ dl = 0 /\ pings = <<>> /\ pg = 0 /\ clo = 0 /\ ending = {}
               /\ subs = [s \in S |-> NewSub] /\ run = "on" /\ room = m /\ ck = 0
\* ---- connections
Acc == /\ conn = "none" /\ ok' = "asked" /\ sent' = <<>> /\ dl' = 0 /\ pings' = <<>> /\ pg' = 0 /\ clo' = 0 /\ ending' = {}
       /\ UNCHANGED <<conn, subs, run, room, ck>>
Hs == /\ ok = "asked" /\ ok' = "done"
      /\ subs' = [s \in DOMAIN subs |-> IF subs[s].st = "ok" THEN [subs[s] EXCEPT !.st = "void"] ELSE subs[s]]
      /\ UNCHANGED <<conn, sent, dl, pings, pg, clo, ending, run, room, ck>>
\* what was submitted before may or may not be left out of the session
Open == /\ ok = "done" /\ conn = "none" /\ run # "off" /\ conn' = "open" /\ ok' = "open"
        /\ subs' = [s \in DOMAIN subs |-> [subs[s] EXCEPT !.old = @ \/ subs[s].st # "none", !.st = IF @ = "void" THEN "gone" ELSE @]]
        /\ UNCHANGED <<sent, dl, pings, pg, clo, ending, run, room, ck>>
All == dl = Len(sent)
\* a session ends when either side ends it; the peer's close, and its leaving, come after what it has sent
Closed == /\ conn = "open" /\ (ending # {} \/ run # "on") /\ (run = "on" /\ ending \subseteq {"close", "half"} => All)
          /\ conn' = "none" /\ UNCHANGED <<ok, sent, dl, pings, pg, clo, ending, subs, run, room, ck>>
\* the peer finds the connection ended
Eof == /\ conn = "none"
       /\ (run = "on" /\ ok # "open" => ending # {})
       /\ (run = "on" /\ ok = "open" /\ ending \subseteq {"close", "half"} => pg = Len(pings) /\ ("close" \in ending => clo = 2))
       /\ UNCHANGED wvars
End(how) == ending' = ending \cup {how} /\ UNCHANGED <<conn, ok, sent, dl, pings, pg, clo, subs, run, room, ck>>
\* ---- from the peer
Msg(m) == sent' = Append(sent, m) /\ UNCHANGED <<conn, ok, dl, pings, pg, clo, ending, subs, run, room, ck>>
Deliver(m, good) == /\ conn = "open" /\ good /\ dl < Len(sent) /\ sent[dl + 1] = m /\ dl' = dl + 1
                    /\ UNCHANGED <<conn, ok, sent, pings, pg, clo, ending, subs, run, room, ck>>
Ping(m) == pings' = Append(pings, m) /\ UNCHANGED <<conn, ok, sent, dl, pg, clo, ending, subs, run, room, ck>>
Pong(m) == /\ ok = "open" /\ pg < Len(pings) /\ pings[pg + 1] = m /\ pg' = pg + 1
           /\ UNCHANGED <<conn, ok, sent, dl, pings, clo, ending, subs, run, room, ck>>
Close == clo' = 1 /\ ending' = ending \cup {"close"} /\ UNCHANGED <<conn, ok, sent, dl, pings, pg, subs, run, room, ck>>
CloseBack == clo = 1 /\ clo' = 2 /\ UNCHANGED <<conn, ok, sent, dl, pings, pg, ending, subs, run, room, ck>>
\* ---- from the client
Call(s) == /\ subs[s].st = "none" /\ subs' = [subs EXCEPT ![s].st = "called", ![s].c = ck + 1] /\ ck' = ck + 1
           /\ UNCHANGED <<conn, ok, sent, dl, pings, pg, clo, ending, run, room>>
Pending == {s \in DOMAIN subs : subs[s].st \in {"called", "ok", "void"}}
Return(s) == /\ subs[s].st \in {"called", "got"} /\ subs' = [subs EXCEPT ![s].st = IF @ = "got" THEN "got" ELSE "ok", ![s].r = ck + 1] /\ ck' = ck + 1
             /\ UNCHANGED <<conn, ok, sent, dl, pings, pg, clo, ending, run, room>>
Refused(s, big) == /\ subs[s].st = "called" /\ (big \/ Cardinality(Pending) > room) /\ subs' = [subs EXCEPT ![s].st = "refused"]
                   /\ UNCHANGED <<conn, ok, sent, dl, pings, pg, clo, ending, run, room, ck>>
Before(x, s) == subs[x].st = "ok" /\ subs[x].r < subs[s].c
\* what was submitted in the session before it has been received
Receive(s, good) ==
    /\ ok = "open" /\ good /\ subs[s].st \in {"called", "ok"}
    /\ \A x \in DOMAIN subs : Before(x, s) => subs[x].old
    /\ subs' = [x \in DOMAIN subs |-> IF x = s THEN [subs[x] EXCEPT !.st = "got"] ELSE IF Before(x, s) THEN [subs[x] EXCEPT !.st = "gone"] ELSE subs[x]]
    /\ UNCHANGED <<conn, ok, sent, dl, pings, pg, clo, ending, run, room, ck>>
Settled == /\ (run = "on" /\ ok \in {"done", "open"} /\ ending = {} =>
                 /\ conn = "open" /\ All /\ pg = Len(pings)
                 /\ \A s \in DOMAIN subs : subs[s].st \in {"called", "ok"} => subs[s].old)
           /\ UNCHANGED wvars
Stop == run = "on" /\ run' = "stopping" /\ UNCHANGED <<conn, ok, sent, dl, pings, pg, clo, ending, subs, room, ck>>
Stopped == run = "stopping" /\ conn = "none" /\ run' = "off" /\ UNCHANGED <<conn, ok, sent, dl, pings, pg, clo, ending, subs, room, ck>>
WInv == dl <= Len(sent) /\ pg <= Len(pings) /\ (conn = "open" => ok = "open")
===========================================================================
