----------------------------- MODULE MC_SchExt ------------------------------
(***************************************************************************)
(* ABI structs that end in extensions: every combination of the types of   *)
(* two extension fields, with and without a base, holding both, one, none  *)
(* or only the second; everything that is encoded is decoded again from    *)
(* each of its prefixes, and what comes out is encoded once more.          *)
(***************************************************************************)
EXTENDS MCBase

CONSTANT Kinds      \* the types of extension fields, by number

A == <<97>>
Str(b) == Node("s", b, <<>>)
U8 == <<117, 105, 110, 116, 56>>
STRN == <<115, 116, 114, 105, 110, 103>>
\* a type name and two of its values
U(n) == Node("u8", <<>>, <<Nat0(IF n = 0 THEN <<>> ELSE <<n>>)>>)
S(b) == Node("str", <<>>, <<Str(b)>>)
Sl(e) == Node("slice", <<>>, e)
Fld(nm, v) == Node("f", nm, <<v>>)
Menu == <<[t |-> U8, v |-> <<U(7), U(0)>>],
          [t |-> U8 \o <<63>>, v |-> <<U(7), Nil>>],                                      \* uint8?
          [t |-> U8 \o <<91, 93>>, v |-> <<Sl(<<U(1), U(2)>>), Sl(<<>>)>>],               \* uint8[]
          [t |-> STRN, v |-> <<S(<<97, 98>>), S(<<>>)>>],
          [t |-> <<98>>, v |-> <<Node("map", <<>>, <<Fld(<<112>>, U(3)), Fld(<<113>>, S(<<120>>))>>), Node("map", <<>>, <<Fld(<<112>>, U(0)), Fld(<<113>>, S(<<>>))>>)>>],      \* b: struct
          [t |-> <<99>>, v |-> <<U(9), U(0)>>],                                           \* c: alias of uint8
          [t |-> <<100>>, v |-> <<Sl(<<S(U8), U(5)>>), Sl(<<S(STRN), S(<<97>>)>>)>>],    \* d: variant
          [t |-> U8 \o <<91, 93, 63>>, v |-> <<Sl(<<U(1)>>), Nil>>],
          [t |-> <<101>>, v |-> <<U(4), Nil>>]>>                                          \* e: alias of uint8?
Abi0(x, y, base) ==
    Seqv(<<Str(<<>>), Seqv(<<Seqv(<<Str(<<99>>), Str(U8)>>), Seqv(<<Str(<<101>>), Str(U8 \o <<63>>)>>)>>),
           Seqv(<<Seqv(<<Str(<<98>>), Str(<<>>), Seqv(<<Seqv(<<Str(<<112>>), Str(U8)>>), Seqv(<<Str(<<113>>), Str(STRN)>>)>>)>>),
                  Seqv(<<Str(<<104>>), Str(<<>>), Seqv(<<Seqv(<<Str(<<107>>), Str(STRN)>>)>>)>>),
                  Seqv(<<Str(A), Str(IF base THEN <<104>> ELSE <<>>),
                         Seqv(<<Seqv(<<Str(<<108>>), Str(U8)>>), Seqv(<<Str(<<109>>), Str(Menu[x].t \o <<36>>)>>), Seqv(<<Str(<<110>>), Str(Menu[y].t \o <<36>>)>>)>>)>>)>>),
           Seqv(<<>>), Seqv(<<>>), Seqv(<<>>), Seqv(<<>>), Seqv(<<>>),
           Seqv(<<Seqv(<<Str(<<100>>), Seqv(<<Str(U8), Str(STRN)>>)>>)>>)>>)
\* which fields are there
Val(x, y, base, has) == Node("map", <<>>, (IF base THEN <<Fld(<<107>>, S(<<104>>))>> ELSE <<>>) \o <<Fld(<<108>>, U(200))>>
                             \o (IF has[1] > 0 THEN <<Fld(<<109>>, Menu[x].v[has[1]])>> ELSE <<>>) \o (IF has[2] > 0 THEN <<Fld(<<110>>, Menu[y].v[has[2]])>> ELSE <<>>))

EAbi(x) == [op |-> "abi", v |-> x, form |-> "direct"]
EADec == [op |-> "adec", nm |-> A, sl |-> 1, by |-> "type", v0 |-> Nat0(<<>>), meas |-> FALSE]
EAEnc(v) == [op |-> "aenc", nm |-> A, v |-> v, lim |-> None, by |-> "type", v0 |-> Nat0(<<>>)]
EReenc == [op |-> "areenc", nm |-> A, sl |-> 1, by |-> "type", v0 |-> Nat0(<<>>)]
PADec == LET r == DDec(ab, A, rd.d, rd.p, rd.en, 0)
         IN  IF r.s = "ok" THEN [out |-> "ok", v |-> r.v, used |-> r.i - rd.p, br |-> r.i - rd.p, ek |-> "", al |-> 0]
             ELSE [out |-> "err", v |-> Nil, used |-> 0, br |-> 0, ek |-> IF rd.en = "err" THEN "injected" ELSE "eof", al |-> 0]
PAEnc(v) == LET r == DEnc(ab, A, v, 0)
            IN  IF r.s = "ok" THEN [out |-> "ok", b |-> r.b, va |-> v, em |-> FALSE, after |-> 0] ELSE [out |-> "err", b |-> <<>>, va |-> v, em |-> FALSE, after |-> 0]

MCInit == MInit /\ sc = <<>> /\ ph = "abi" /\ ch = [x |-> 1, y |-> 1, base |-> FALSE, has |-> <<0, 0>>, b |-> <<>>, k |-> 0, cut |-> {}]
Define == /\ ph = "abi"
          /\ \E x \in Kinds, y \in Kinds, base \in BOOLEAN :
                /\ Call(EAbi(Abi0(x, y, base)), [out |-> "ok", v |-> Abi0(x, y, base)])
                /\ \E h \in {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<1, 1>>, <<2, 2>>, <<1, 2>>, <<0, 1>>} : ch' = [ch EXCEPT !.x = x, !.y = y, !.base = base, !.has = h]
          /\ ph' = "enc"
V0 == Val(ch.x, ch.y, ch.base, ch.has)
EncA == /\ ph = "enc" /\ Call(EAEnc(V0), PAEnc(V0))
        /\ LET r == DEnc(ab, A, V0, 0) IN IF r.s = "ok" THEN ch' = [ch EXCEPT !.b = r.b] /\ ph' = "open" ELSE ph' = "end" /\ UNCHANGED ch
Open == /\ ph = "open" /\ ch.k <= Len(ch.b)
        /\ LET d == SubSeq(ch.b, 1, ch.k) IN Call(ELit(d, "eof"), PLit(d))
        /\ ph' = "dec" /\ UNCHANGED ch
DecA == ph = "dec" /\ Call(EADec, PADec) /\ ph' = "reenc" /\ UNCHANGED ch
Reenc == /\ ph = "reenc"
         /\ IF dv[1].st = "val" THEN Call(EReenc, PAEnc(dv[1].v)) ELSE UNCHANGED <<mvars, sc>>
         /\ ch' = [ch EXCEPT !.k = @ + 1, !.cut = IF dv[1].st = "val" THEN @ \cup {ch.k} ELSE @] /\ ph' = "open"
\* the reader failing at the very end is not the end of the input
Err == /\ ph = "open" /\ ch.k > Len(ch.b) /\ Call(ELit(ch.b, "err"), PLit(ch.b)) /\ ph' = "err" /\ UNCHANGED ch
DecE == ph = "err" /\ Call(EADec, PADec) /\ ph' = "end" /\ UNCHANGED ch
Finish == ph = "end" /\ Emit(sc) /\ ph' = "done" /\ UNCHANGED <<mvars, sc, ch>>
Done == ph = "done" /\ UNCHANGED MCvars
MCNext == Define \/ EncA \/ Open \/ DecA \/ Reenc \/ Err \/ DecE \/ Finish \/ Done

\* --- what must hold of the specification itself
\* nothing present behind something absent
Holes == (ph = "end" /\ Len(sc) = 2) => ch.has[1] = 0 /\ ch.has[2] > 0
\* what decodes is encoded again to what it came from
Back == (ph = "reenc" /\ dv[1].st = "val") => LET r == DEnc(ab, A, dv[1].v, 0) IN r.s = "ok" /\ r.b = rd.d
\* the prefixes that decode are those that end where an extension begins or ends
Here(h) == Len(DEnc(ab, A, Val(ch.x, ch.y, ch.base, h), 0).b)
Bounds == {Here(<<0, 0>>)} \cup (IF ch.has[1] > 0 THEN {Here(<<ch.has[1], 0>>)} ELSE {}) \cup (IF ch.has[2] > 0 THEN {Here(ch.has)} ELSE {})
Cuts == (ph = "err") => ch.cut = Bounds
\* a failing reader is no absent extension
Failing == (ph = "end" /\ Len(sc) > 2) => (dv[1].st = "val" <=> (ch.has[2] > 0))
=============================================================================
