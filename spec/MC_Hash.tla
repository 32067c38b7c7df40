------------------------------- MODULE MC_Hash ------------------------------
(***************************************************************************)
(* Hash objects with a block buffer, refining the abstract object of       *)
(* Machine that just remembers everything written: writes of lengths       *)
(* around the block size, sums in between, resets, two objects in          *)
(* alternation.  At every step the blocks compressed plus the buffer are   *)
(* what was written, and what Sum would compress is the padded message.    *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Lens, Steps

VARIABLE ob         \* per object: [done (compressed so far), buf, n (bytes written)]
vars == <<MCvars, ob>>

Hs == {1, 2}
Fresh0 == [done |-> <<>>, buf |-> <<>>, n |-> 0]
Data(h, from, k) == [i \in 1..k |-> (37 * (from + i) + 91 * h) % 251]

\* the buffered algorithm
Push(o, d) ==
    LET room == 64 - Len(o.buf)
        k == IF Len(o.buf) = 0 THEN 0 ELSE IF Len(d) < room THEN Len(d) ELSE room
        b1 == o.buf \o SubSeq(d, 1, k)
        full == Len(b1) = 64
        rest == SubSeq(d, k + 1, Len(d))
        m == 64 * (Len(rest) \div 64)
        done1 == o.done \o (IF full THEN b1 ELSE <<>>)
        left == SubSeq(rest, m + 1, Len(rest))
    IN  [done |-> done1 \o SubSeq(rest, 1, m),
         buf |-> IF full \/ Len(o.buf) = 0 THEN left ELSE b1,
         n |-> o.n + Len(d)]
Padding(n) == <<128>> \o Zeros((IF n % 64 < 56 THEN 55 ELSE 119) - (n % 64))
LenLE(n) == Reverse(BitLenBE(n, 8))
Closed(o) == Push(Push(o, Padding(o.n)), LenLE(o.n))

MCInit == MInit /\ sc = <<>> /\ ph = "run" /\ ch = 0 /\ ob = [h \in Hs |-> Fresh0]
Write1 == \E h \in Hs, k \in Lens :
            LET d == Data(h, ob[h].n, k)
            IN  /\ Call([op |-> "hwrite", h |-> h, d |-> d], [out |-> "ok", n |-> k, in |-> d])
                /\ ob' = [ob EXCEPT ![h] = Push(@, d)]
Reset1 == \E h \in Hs : /\ ob[h].n > 0
                        /\ Call([op |-> "hreset", h |-> h], [out |-> "ok"])
                        /\ ob' = [ob EXCEPT ![h] = Fresh0]
\* (the digest itself is left to the trace specification)
Sum1 == \E h \in Hs : /\ sc # <<>> /\ sc[Len(sc)].op # "hsum"
                      /\ sc' = Append(sc, [op |-> "hsum", h |-> h, a |-> <<>>]) /\ UNCHANGED <<mvars, ob>>
Step == ph = "run" /\ ch < Steps /\ ch' = ch + 1 /\ (Write1 \/ Reset1 \/ Sum1) /\ UNCHANGED ph
Finish == /\ ph = "run" /\ ch = Steps
          /\ Emit(sc \o <<[op |-> "hsum", h |-> 1, a |-> <<7>>], [op |-> "hsum", h |-> 2, a |-> <<>>], [op |-> "hsum", h |-> 1, a |-> <<>>]>>)
          /\ ph' = "done" /\ UNCHANGED <<mvars, sc, ch, ob>>
MCNext == Step \/ Finish

\* object 1 is used before object 2 (they are interchangeable)
Sym == ob[2].n > 0 => ob[1].n > 0 \/ \E i \in 1..Len(sc) : sc[i].h = 1

Refines == \A h \in Hs : ob[h].done \o ob[h].buf = hs[h].d /\ ob[h].n = Len(hs[h].d)
Buffered == \A h \in Hs : Len(ob[h].buf) < 64 /\ Len(ob[h].done) % 64 = 0
Padded == \A h \in Hs : LET c == Closed(ob[h])
                        IN  c.buf = <<>> /\ c.done = hs[h].d \o Pad(Len(hs[h].d), 64, 8) \o LenLE(Len(hs[h].d))
=============================================================================
