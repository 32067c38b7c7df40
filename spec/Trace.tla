------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: each line of traces.ndjson is one session recorded    *)
(* from the real code.  A session is accepted when every event is an       *)
(* enabled action; the first event that is not leaves TLC in a deadlock    *)
(* whose last state names session s and event l.                           *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

T == ndJsonDeserialize("traces.ndjson")

VARIABLES s, l

TInit == MInit /\ s \in 1..Len(T) /\ l = 1

TNext == \/ /\ l <= Len(T[s].ev)
            /\ T[s].ev[l].o.out \in {"ok", "err"}     \* no panic, hang, crash or race
            /\ Ev(T[s].ev[l])
            /\ l' = l + 1 /\ s' = s
         \/ /\ l > Len(T[s].ev)
            /\ UNCHANGED <<mvars, s, l>>

\* the same, but reports every rejected session and goes on (used after a rejection)
Step == /\ l <= Len(T[s].ev)
        /\ T[s].ev[l].o.out \in {"ok", "err"}
        /\ Ev(T[s].ev[l])
ANext == \/ TNext
         \/ /\ l <= Len(T[s].ev)
            /\ ~ENABLED Step
            /\ PrintT(<<"REJECTED", s, l>>)
            /\ l' = Len(T[s].ev) + 1 /\ UNCHANGED <<mvars, s>>

\* keep fingerprints cheap: a session's state is determined by its position
TView == <<s, l>>
=============================================================================
