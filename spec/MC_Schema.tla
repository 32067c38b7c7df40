------------------------------ MODULE MC_Schema -----------------------------
(***************************************************************************)
(* Every ABI definition of a small universe: two names, each undefined, an *)
(* alias, a struct (with or without base and field) or a variant, of each  *)
(* other, of themselves or of a built-in, in every combination - so also   *)
(* every kind of cycle.  Each definition decodes a set of byte strings,    *)
(* encodes again what came out, and encodes a set of values, fitting and   *)
(* not.                                                                    *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS
    Sfxs,       \* subset of {"", "?", "[]", "[]?"}
    Fields2,        \* whether structs may have two fields
    Variants2       \* whether variants may have two alternatives

A == <<97>>         \* the names: a, b
B_ == <<98>>
U8 == <<117, 105, 110, 116, 56>>
Sfx(s) == CASE s = "" -> <<>> [] s = "?" -> <<63>> [] s = "[]" -> <<91, 93>> [] s = "[]?" -> <<91, 93, 63>>
Texprs == {b \o Sfx(s) : b \in {A, B_, U8}, s \in Sfxs}
Bases == {<<>>, A, B_}

Str(b) == Node("s", b, <<>>)
\* definitions of one name: records [c, b (base), ts (types)]
Def(c, b, ts) == [c |-> c, b |-> b, ts |-> ts]
Defs(fn) == {Def("none", <<>>, <<>>)}
        \cup {Def("alias", <<>>, <<x>>) : x \in Texprs}
        \cup {Def("struct", b, <<>>) : b \in Bases}
        \cup {Def("struct", b, <<x>>) : b \in Bases, x \in Texprs}
        \cup (IF Fields2 THEN {Def("struct", b, <<x, y>>) : b \in {<<>>, B_}, x \in Texprs, y \in {A, U8, B_ \o Sfx("?")}} ELSE {})
        \cup {Def("variant", <<>>, <<>>)}
        \cup {Def("variant", <<>>, <<x>>) : x \in Texprs}
        \cup (IF Variants2 THEN {Def("variant", <<>>, <<x, U8>>) : x \in Texprs \ {U8}} ELSE {})

FN(nm, i) == <<IF nm = A THEN 112 ELSE 113, 48 + i>>       \* field names p1, p2 / q1, q2
Structs(nm, d) == IF d.c = "struct"
                  THEN <<Seqv(<<Str(nm), Str(d.b), Seqv([i \in 1..Len(d.ts) |-> Seqv(<<Str(FN(nm, i)), Str(d.ts[i])>>)])>>)>>
                  ELSE <<>>
Aliases(nm, d) == IF d.c = "alias" THEN <<Seqv(<<Str(nm), Str(d.ts[1])>>)>> ELSE <<>>
Vars(nm, d) == IF d.c = "variant" THEN <<Seqv(<<Str(nm), Seqv([i \in 1..Len(d.ts) |-> Str(d.ts[i])])>>)>> ELSE <<>>
Mk(da, db) == Seqv(<<Str(<<>>), Seqv(Aliases(A, da) \o Aliases(B_, db)), Seqv(Structs(A, da) \o Structs(B_, db)),
                     Seqv(<<>>), Seqv(<<>>), Seqv(<<>>), Seqv(<<>>), Seqv(<<>>), Seqv(Vars(A, da) \o Vars(B_, db))>>)

\* left open by the properties: arrays of types that may occupy no bytes, optionals of optionals
RECURSIVE MinB(_, _, _)
MinB(x, nm, seen) ==
    LET p == Split(nm)
        c == Class(x, p.base)
        f == Fields(x, c.i, {})
    IN  IF p.arr \/ p.opt THEN 1
        ELSE IF p.base \in seen THEN 0
        ELSE CASE c.c = "struct" -> IF f.ok THEN FoldLeft(LAMBDA a, g : a + MinB(x, g.e[2].b, seen \cup {p.base}), 0, f.fs) ELSE 0
               [] c.c = "alias" -> MinB(x, AbiTypes(x)[c.i].e[2].b, seen \cup {p.base})
               [] OTHER -> 1
Exprs(d) == {d.ts[i] : i \in 1..Len(d.ts)}
Settled(x, names) ==
    \A nm \in names :
        LET p == Split(nm)
        IN  /\ p.arr => MinB(x, p.base, {}) > 0
            /\ p.opt => p.arr \/ ~CanBeNil(x, p.base, 6)

Datas == {<<>>, <<0>>, <<1>>, <<1, 0>>, <<1, 1, 5>>, <<2, 7, 0, 1>>, <<1, 1, 1, 1, 1, 1, 0, 0>>, <<0, 5, 1, 9, 9>>}
U(n) == Node("u8", <<>>, <<Nat0(<<n>>)>>)
Sl(e) == Node("slice", <<>>, e)
Fd(nm, i, v) == FieldNode(FN(nm, i), v)
M(fs) == MapNode(fs)
Values == {Nil, U(7), Sl(<<>>), Sl(<<U(7)>>), M(<<>>), M(<<Fd(A, 1, U(7))>>), M(<<Fd(A, 1, Nil)>>), M(<<Fd(A, 1, Sl(<<>>))>>),
           M(<<Fd(A, 1, U(7)), Fd(B_, 1, U(8))>>), Sl(<<StrNode(U8), U(3)>>), Sl(<<StrNode(B_), M(<<>>)>>), Sl(<<StrNode(A), Sl(<<StrNode(U8), U(1)>>)>>),
           M(<<Fd(B_, 1, U(7)), Fd(A, 1, M(<<Fd(B_, 1, U(7))>>))>>), Sl(<<M(<<>>)>>)}
DataSeq == SetToSeq(Datas)
ValSeq == SetToSeq(Values)

EAbi(x) == [op |-> "abi", v |-> x, form |-> "direct"]
EADec(nm, slot) == [op |-> "adec", nm |-> nm, sl |-> slot, by |-> "type", v0 |-> Nat0(<<>>), meas |-> FALSE]
EAEnc(nm, v) == [op |-> "aenc", nm |-> nm, v |-> v, lim |-> None, by |-> "type", v0 |-> Nat0(<<>>)]
EReenc(nm, slot) == [op |-> "areenc", nm |-> nm, sl |-> slot, by |-> "type", v0 |-> Nat0(<<>>)]
PADec(x, nm, d, p, en) ==
    LET r == DDec(x, nm, d, p, en, 0)
    IN  IF r.s = "ok" THEN [out |-> "ok", v |-> r.v, used |-> r.i - p, br |-> r.i - p, ek |-> "", al |-> 0]
        ELSE [out |-> "err", v |-> Nil, used |-> 0, br |-> 0, ek |-> "eof", al |-> 0]
PAEnc(x, nm, v) ==
    LET r == DEnc(x, nm, v, 0)
    IN  IF r.s = "ok" THEN [out |-> "ok", b |-> r.b, va |-> v, em |-> FALSE, after |-> 0] ELSE [out |-> "err", b |-> <<>>, va |-> v, em |-> FALSE, after |-> 0]

MCInit == MInit /\ sc = <<>> /\ ph = "abi" /\ ch = [nm |-> A, i |-> 1]

Targets(da) == {A} \cup (IF da.c = "none" THEN {} ELSE {})
Define == /\ ph = "abi"
          /\ \E da \in Defs(A), db \in Defs(B_) :
                /\ da.c # "none"
                /\ LET x == Mk(da, db)
                       nms == Exprs(da) \cup Exprs(db)
                   IN  Settled(x, nms) /\ Call(EAbi(x), [out |-> "ok", v |-> x])
          /\ ph' = "open" /\ UNCHANGED ch
Open == /\ ph = "open" /\ ch.i <= Len(DataSeq)
        /\ Call(ELit(DataSeq[ch.i], "eof"), PLit(DataSeq[ch.i]))
        /\ ph' = "dec" /\ UNCHANGED ch
DecA == /\ ph = "dec" /\ Call(EADec(ch.nm, 1), PADec(ab, ch.nm, rd.d, rd.p, rd.en))
        /\ ph' = "reenc" /\ UNCHANGED ch
Reenc == /\ ph = "reenc"
         /\ Call(EReenc(ch.nm, 1), IF dv[1].st = "val" THEN PAEnc(ab, ch.nm, dv[1].v) ELSE [out |-> "err", b |-> <<>>, em |-> FALSE, after |-> 0])
         /\ ph' = "open" /\ ch' = [ch EXCEPT !.i = @ + 1]
Turn == /\ ph = "open" /\ ch.i > Len(DataSeq)
        /\ ph' = "enc" /\ ch' = [ch EXCEPT !.i = 1] /\ UNCHANGED <<mvars, sc>>
EncA == /\ ph = "enc" /\ ch.i <= Len(ValSeq)
        /\ Call(EAEnc(ch.nm, ValSeq[ch.i]), PAEnc(ab, ch.nm, ValSeq[ch.i]))
        /\ ch' = [ch EXCEPT !.i = @ + 1] /\ UNCHANGED ph
Finish == ph = "enc" /\ ch.i > Len(ValSeq) /\ Emit(sc) /\ ph' = "done" /\ UNCHANGED <<mvars, sc, ch>>
Done == ph = "done" /\ UNCHANGED MCvars
MCNext == Define \/ Open \/ DecA \/ Reenc \/ Turn \/ EncA \/ Finish \/ Done

\* --- what must hold of the specification itself
\* what decoding returns, encoding takes, and decoding that gives the same value and all the bytes
Inverts == (ph = "reenc" /\ dv[1].st = "val") =>
    LET r == DEnc(ab, ch.nm, dv[1].v, 0)
        q == DDec(ab, ch.nm, r.b, 1, "eof", 0)
    IN  /\ r.s = "ok" /\ q.s = "ok" /\ q.v = dv[1].v /\ q.i = Len(r.b) + 1
        /\ Len(r.b) <= rd.p - 1
        /\ DDec(ab, ch.nm, rd.d, 1, "eof", 0).amb \/ r.b = SubSeq(rd.d, 1, rd.p - 1)
\* a type without finite values decodes nothing and encodes nothing (absent values of undefined types aside)
Void == ~Inhabited(ab, ch.nm) /\ \A n \in Reachable(ab, ch.nm) : Defined(ab, n)
Empty == (ph = "reenc" /\ Void) => dv[1].st = "any"
EmptyE == (ph = "enc" /\ ch.i <= Len(ValSeq) /\ Void) => DEnc(ab, ch.nm, ValSeq[ch.i], 0).s # "ok"
\* what is encoded decodes to itself
RoundTrip == (ph = "enc" /\ ch.i <= Len(ValSeq)) =>
    LET r == DEnc(ab, ch.nm, ValSeq[ch.i], 0)
    IN  (r.s = "ok" /\ ~r.amb) => LET q == DDec(ab, ch.nm, r.b, 1, "eof", 0) IN q.s = "ok" /\ q.v = ValSeq[ch.i] /\ q.i = Len(r.b) + 1
\* sound definitions only fail for want of input or for malformed data
SoundMeansInhabited == (ph = "open" /\ Sound(ab, ch.nm)) => Inhabited(ab, ch.nm)
=============================================================================
