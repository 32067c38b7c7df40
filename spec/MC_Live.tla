------------------------------- MODULE MC_Live ------------------------------
(***************************************************************************)
(* Definitions that change while they are in use: every sequence of Rounds *)
(* definitions out of a menu in which two names and an action mean         *)
(* something else each time, each put in place of the one before or        *)
(* written over it.  Every round decodes by type and by action, encodes    *)
(* what this round and what the round before decoded, and looks names up:  *)
(* only the definition of the moment counts.                               *)
(***************************************************************************)
EXTENDS MC_Schema

CONSTANTS Rounds

S0 == Def("struct", <<>>, <<U8>>)
S2 == Def("struct", <<>>, <<U8, U8>>)
Menu == {<<S0, S0, A>>, <<S2, S0, A>>, <<S0, S2, B_>>,
         <<Def("struct", <<>>, <<B_>>), S0, A>>,
         <<Def("struct", B_, <<U8>>), S0, A>>,
         <<Def("alias", <<>>, <<B_>>), S0, A>>,
         <<Def("alias", <<>>, <<U8>>), S0, B_>>,
         <<Def("variant", <<>>, <<U8, B_>>), S0, A>>,
         <<Def("variant", <<>>, <<B_, U8>>), S0, A>>,
         <<Def("struct", <<>>, <<B_ \o Sfx("?")>>), Def("variant", <<>>, <<U8>>), A>>,
         <<Def("struct", <<>>, <<B_ \o Sfx("[]")>>), Def("alias", <<>>, <<U8>>), A>>,
         <<Def("none", <<>>, <<>>), S0, A>>}
X1 == Nat0(<<1>>)
Mk3(m) == [Mk(m[1], m[2]) EXCEPT !.e[4] = Seqv(<<Seqv(<<X1, Str(m[3]), Str(<<>>)>>)>>)]
Data == <<1, 1, 5, 0, 2>>

LInit == MInit /\ sc = <<>> /\ ph = "def" /\ ch = [r |-> 0, s |-> 0]
Step(p) == ph' = p /\ UNCHANGED ch
LDefine == /\ ph = "def" /\ ch.r < Rounds
           /\ \E m \in Menu, mod \in {FALSE, TRUE} :
                 /\ mod => ch.r > 0
                 /\ LET x == Mk3(m) IN Call(EAbi(x) @@ ("mod" :> mod), [out |-> "ok", v |-> x])
           /\ ch' = [ch EXCEPT !.r = @ + 1] /\ ph' = "open"
LOpen == ph = "open" /\ Call(ELit(Data, "eof"), PLit(Data)) /\ Step("dec")
Slot == 1 + (ch.r % 2)
Other == 3 - Slot
LDec == ph = "dec" /\ Call(EADec(A, Slot), PADec(ab, A, rd.d, rd.p, rd.en)) /\ Step("re")
Again(s) == IF dv[s].st = "val" THEN PAEnc(ab, A, dv[s].v) ELSE [out |-> "err", b |-> <<>>, em |-> FALSE, after |-> 0]
LRe == ph = "re" /\ Call(EReenc(A, Slot), Again(Slot)) /\ Step("old")
LOld == ph = "old" /\ Call(EReenc(A, Other), Again(Other)) /\ Step("act")
ActNm == AbiActions(ab)[1].e[2].b
LOpen2 == ph = "act" /\ Call(ELit(Data, "eof"), PLit(Data)) /\ Step("act2")
LAct == /\ ph = "act2"
        /\ Call([EADec(<<>>, 0) EXCEPT !.by = "action", !.v0 = X1], PADec(ab, ActNm, rd.d, rd.p, rd.en))
        /\ Step("find")
LFind == /\ ph = "find"
         /\ LET i == First(AbiStructs(ab), A)
            IN  Call([op |-> "alookup", form |-> "struct", nm |-> A, v0 |-> X1], [out |-> "ok", v |-> IF i = 0 THEN Nil ELSE AbiStructs(ab)[i]])
         /\ Step("def")
LFinish == ph = "def" /\ ch.r = Rounds /\ Emit(sc) /\ ph' = "done" /\ UNCHANGED <<mvars, sc, ch>>
LNext == LDefine \/ LOpen \/ LDec \/ LRe \/ LOld \/ LOpen2 \/ LAct \/ LFind \/ LFinish \/ (ph = "done" /\ UNCHANGED MCvars)

\* --- what must hold of the specification itself
\* a value goes back under the definition it was decoded by
Back == (ph = "old" /\ dv[Slot].st = "val") => DEnc(ab, A, dv[Slot].v, 0).s = "ok"
\* a round has the outcome it would have as the first
Current == ph = "re" => LET r == DDec(ab, A, Data, 1, "eof", 0)
                        IN  dv[Slot] = IF r.s = "ok" THEN [st |-> "val", v |-> r.v] ELSE Slot0
=============================================================================
