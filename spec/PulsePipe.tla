---------------------------- MODULE PulsePipe ----------------------------
(* The pulse compressor as its users see it: pulses are numbered 1, 2, ... in
   arrival order. `cf` holds the configuration of a behaviour:
     depth   slots in the ring            groups  number of filter groups
     fc[g+1] filters in group g           base    sequence number of pulse 1
     blind[g+1] gates lost to group g     reader  TRUE when a reader drains pulses *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cf, fed, insp, ph, cc, maySkip, wl, h0, h1, credit, nread, ngot, gc
pvars == <<cf, fed, insp, ph, cc, maySkip, wl, h0, h1, credit, nread, ngot, gc>>

\* ph[n]: "fed" -> "insp" -> ("comp" | "skip") -> "down" -> "done" -> "gone"
Phase(n) == IF n \in DOMAIN ph THEN ph[n] ELSE "none"
Gid(n) == (cf.base + n - 1) % cf.groups
\* the worker that finished pulse n at that moment was more than 85% of the ring behind
Behind(lag) == lag * 100 > 85 * cf.depth
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

PInit(c) ==
    /\ cf = c
    /\ fed = 0 /\ insp = 0 /\ nread = 0
    /\ ph = << >> /\ cc = << >> /\ gc = << >>
    /\ maySkip = {} /\ credit = 0 /\ ngot = 0
    /\ wl = << >> /\ h0 = FALSE /\ h1 = FALSE

\* raw data of the next pulse, g gates, are in place
Feed(n, g) ==
    /\ n = fed + 1
    /\ Phase(n) = "none"
    /\ fed' = n
    /\ ph' = Put(ph, n, "fed")
    /\ cc' = Put(cc, n, 0)
    /\ gc' = Put(gc, n, g)
    /\ UNCHANGED <<cf, insp, maySkip, wl, h0, h1, credit, nread, ngot>>

\* some worker, when it last finished a pulse, was more than 85% of the ring behind
Hot == \E w \in DOMAIN wl : Behind(wl[w])
\* pulses are looked at in arrival order; when behind (the lag is sampled between two
\* looks), the unfinished ones and a tenth of a ring of coming ones may be skipped
Inspect(n) ==
    /\ n = insp + 1
    /\ Phase(n) = "fed"
    /\ insp' = n
    /\ ph' = Put(ph, n, "insp")
    /\ h1' = (h0 \/ Hot) /\ h0' = FALSE
    /\ IF Hot \/ h0 \/ h1
         THEN /\ maySkip' = maySkip \cup {k \in DOMAIN ph : ph[k] \in {"fed", "insp"}} \cup {n}
              /\ credit' = cf.depth \div 10
       ELSE IF credit > 0 THEN /\ maySkip' = maySkip \cup {n}
                               /\ credit' = credit - 1
       ELSE UNCHANGED <<maySkip, credit>>
    /\ UNCHANGED <<cf, fed, cc, wl, nread, ngot, gc>>

\* worker w reports its distance to the feeder after finishing a pulse
Lag(w, lag) ==
    /\ h0' = (h0 \/ Hot)
    /\ wl' = Put(wl, w, lag)
    /\ UNCHANGED <<cf, fed, insp, ph, cc, maySkip, h1, credit, nread, ngot, gc>>

\* filter j (0-based) of group g, whose coefficients are f, is applied to pulse n
Compress(n, g, j, f) ==
    /\ Phase(n) = "insp"
    /\ g = Gid(n)
    /\ j = cc[n] /\ j < cf.fc[g + 1]
    /\ f = 10 * g + j
    /\ cc' = [cc EXCEPT ![n] = @ + 1]
    /\ UNCHANGED <<cf, fed, insp, ph, maySkip, wl, h0, h1, credit, nread, ngot, gc>>

Compressed(n) ==
    /\ Phase(n) = "insp"
    /\ cc[n] = cf.fc[Gid(n) + 1]
    /\ ph' = [ph EXCEPT ![n] = "comp"]
    /\ UNCHANGED <<cf, fed, insp, cc, maySkip, wl, h0, h1, credit, nread, ngot, gc>>

Skipped(n) ==
    /\ Phase(n) = "insp"
    /\ cc[n] = 0
    \* either earmarked by an earlier look, or by the one under way
    /\ n \in maySkip \/ Hot \/ h0 \/ h1
    /\ ph' = [ph EXCEPT ![n] = "skip"]
    /\ UNCHANGED <<cf, fed, insp, cc, maySkip, wl, h0, h1, credit, nread, ngot, gc>>

DownSampled(n) ==
    /\ Phase(n) \in {"comp", "skip"}
    /\ ph' = [ph EXCEPT ![n] = "down"]
    /\ cc' = [cc EXCEPT ![n] = IF ph[n] = "comp" THEN 1 ELSE 0]
    /\ UNCHANGED <<cf, fed, insp, maySkip, wl, h0, h1, credit, nread, ngot, gc>>

CeilDiv(a, b) == (a + b - 1) \div b
\* done with g gates left, d after reduction
Process(n, g, d) ==
    /\ Phase(n) = "down"
    /\ LET grp == IF cc[n] = 1 THEN Gid(n) ELSE 0 IN
         /\ g = gc[n] + 1 - cf.blind[grp + 1]
         /\ d = CeilDiv(g, cf.stride)
    /\ ph' = [ph EXCEPT ![n] = "done"]
    /\ UNCHANGED <<cf, fed, insp, cc, maySkip, wl, h0, h1, credit, nread, ngot, gc>>

Read(n) ==
    /\ n = nread + 1
    /\ Phase(n) = "done"
    /\ nread' = n
    /\ UNCHANGED <<cf, fed, insp, ph, cc, maySkip, wl, h0, h1, credit, ngot, gc>>

\* what the reader is given
Got(n) ==
    /\ n = ngot + 1 /\ n <= nread
    /\ ngot' = n
    /\ UNCHANGED <<cf, fed, insp, ph, cc, maySkip, wl, h0, h1, credit, nread, gc>>

\* the slot is given up for a later pulse
Vacate(n) ==
    /\ Phase(n) = "done"
    /\ cf.reader => n <= nread
    /\ ph' = Drop(ph, n)
    /\ cc' = Drop(cc, n) /\ gc' = Drop(gc, n)
    /\ maySkip' = maySkip \ {n}
    /\ UNCHANGED <<cf, fed, insp, wl, h0, h1, credit, nread, ngot>>

\* nothing is left behind when the stream pauses
Settled ==
    /\ insp = fed
    /\ \A n \in DOMAIN ph : ph[n] = "done"
    /\ cf.reader => (nread = fed /\ ngot = fed)

InOrder == /\ nread <= insp /\ insp <= fed
           /\ \A n \in DOMAIN ph : (ph[n] = "fed") <=> (n > insp)
ReadDone == \A n \in DOMAIN ph : n <= nread => ph[n] = "done"
==========================================================================
