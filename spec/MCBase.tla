------------------------------- MODULE MCBase -------------------------------
(***************************************************************************)
(* What the exhaustive models share: a session is a script of calls; every *)
(* call the model makes is an action of Machine with the outcome the       *)
(* specification predicts, and finished scripts are written to             *)
(* scripts.ndjson, to be executed on the real code and judged by Trace.    *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

VARIABLES
    sc,     \* the script so far (calls without their outcome)
    ph,     \* phase of the session
    ch      \* what the session chose at its start

MCvars == <<mvars, sc, ph, ch>>

With(e, o) == e @@ ("o" :> o)

\* make call e with outcome o
Call(e, o) == Ev(With(e, o)) /\ sc' = Append(sc, e)

\* a finished script goes to a file of its own: TLC's workers would mix their output in one
Emit(s) == Serialize(ToJson([ev |-> s]) \o "\n", "s" \o ToString(RandomElement(1..1000000000)) \o ".script",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

None == 0 - 1

\* events
EEnc(ty, v, path, by) == [op |-> "enc", t |-> ty, v |-> v, path |-> path, by |-> by, lim |-> None]
EOpen(en, chunks, cut) == [op |-> "open", src |-> "wire", en |-> en, ch |-> chunks, to |-> cut]
ELit(d, en) == [op |-> "open", src |-> "lit", d |-> d, en |-> en]
EDec(ty, slot, path) == [op |-> "dec", t |-> ty, sl |-> slot, path |-> path, by |-> "ptr", meas |-> FALSE]
EEncS(ty, slot, path) == [op |-> "encs", t |-> ty, sl |-> slot, path |-> path, by |-> "val"]
ELook(ty, slot) == [op |-> "look", t |-> ty, sl |-> slot]
EPoke(ty, slot, v) == [op |-> "poke", t |-> ty, sl |-> slot, v |-> v]
ECuts(ty, en, path, chunks) == [op |-> "cuts", t |-> ty, src |-> "wire", en |-> en, path |-> path, by |-> "ptr", max |-> 0, ch |-> chunks]
EFaults(ty, v, path, short, once) == [op |-> "faults", t |-> ty, v |-> v, path |-> path, by |-> "val", max |-> 0, short |-> short, once |-> once]

\* predicted outcomes
PEnc(ty, v) == IF EncOk(ty, v) THEN [out |-> "ok", b |-> Enc(ty, v), va |-> v, em |-> FALSE, after |-> 0]
               ELSE [out |-> "err", b |-> <<>>, va |-> v, em |-> FALSE, after |-> 0]
PLim(ty, v, lim) == LET full == Enc(ty, v)
                    IN  IF lim < 0 \/ Len(full) <= lim THEN [out |-> "ok", b |-> full, em |-> FALSE, after |-> 0, lim |-> lim]
                        ELSE [out |-> "err", b |-> SubSeq(full, 1, lim), em |-> TRUE, after |-> 0, lim |-> lim]
POpen(d, from, to) == [out |-> "ok", exact |-> TRUE, from |-> from, to |-> to, d |-> d]
PLit(d) == [out |-> "ok", exact |-> FALSE, from |-> 0, to |-> 0, d |-> d]
PDec(ty, d, p, en) == LET r == Dec(ty, d, p, en)
                      IN  IF r.s = "ok" THEN [out |-> "ok", v |-> r.v, used |-> r.i - p, br |-> r.i - p, ek |-> "", al |-> 0]
                          ELSE [out |-> "err", v |-> Nil, used |-> 0, br |-> 0, ek |-> IF en = "err" THEN "injected" ELSE "eof", al |-> 0]
=============================================================================
