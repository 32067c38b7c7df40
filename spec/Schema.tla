------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* ABI definitions and the encoding and decoding they prescribe.           *)
(*                                                                         *)
(* A definition is the value node of the typed kind "abi" (see Wire).      *)
(* A dynamic value is a node                                               *)
(*   [k "map",   e fields [k "f", b name, e <<value>>] in name order]      *)
(*   [k "slice", e values]                                                 *)
(*   [k "nil"]                                                             *)
(*   [k a typed kind of Wire, e <<typed value node>>]                      *)
(* Other kinds stand for Go values of no schema type at all.               *)
(***************************************************************************)
EXTENDS Wire, Builtins

AbiTypes(ab) == ab.e[2].e
AbiStructs(ab) == ab.e[3].e
AbiActions(ab) == ab.e[4].e
AbiTables(ab) == ab.e[5].e
AbiVariants(ab) == ab.e[9].e

\* index of the first entry called nm, 0 if there is none
First(entries, nm) == SelectInSeq(entries, LAMBDA x : x.e[1].b = nm)
FirstName(entries, v) == SelectInSeq(entries, LAMBDA x : x.e[1] = v)

Ends(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Chop(s, n) == SubSeq(s, 1, Len(s) - n)

\* a type name taken apart: extension ($), optional (?), array ([]), in that order
Split(nm) ==
    LET ext == Ends(nm, <<36>>)
        a == IF ext THEN Chop(nm, 1) ELSE nm
        opt == Ends(a, <<63>>)
        b == IF opt THEN Chop(a, 1) ELSE a
        arr == Ends(b, <<91, 93>>)
    IN  [ext |-> ext, opt |-> opt, arr |-> arr, base |-> IF arr THEN Chop(b, 2) ELSE b]

\* what a base name stands for: [c (class), i (index)]
Class(ab, base) ==
    LET s == First(AbiStructs(ab), base)
        v == First(AbiVariants(ab), base)
        t == First(AbiTypes(ab), base)
        x == SelectInSeq(Builtins, LAMBDA y : y.n = base)
    IN  IF s > 0 THEN [c |-> "struct", i |-> s]
        ELSE IF v > 0 THEN [c |-> "variant", i |-> v]
        ELSE IF t > 0 THEN [c |-> "alias", i |-> t]
        ELSE IF x > 0 THEN [c |-> "builtin", i |-> x]
        ELSE [c |-> "none", i |-> 0]

\* all fields of a struct, those of its base first: [ok, fs]; bases may be
\* aliases of structs, not arrays, optionals or extensions, and not cyclic
RECURSIVE Fields(_, _, _)
RECURSIVE BaseStruct(_, _, _)
BaseStruct(ab, nm, seen) ==     \* index of the struct a base name leads to, 0 if none
    LET p == Split(nm)
        c == Class(ab, p.base)
    IN  IF p.ext \/ p.opt \/ p.arr \/ nm \in seen THEN 0
        ELSE IF c.c = "struct" THEN c.i
        ELSE IF c.c = "alias" THEN BaseStruct(ab, AbiTypes(ab)[c.i].e[2].b, seen \cup {nm})
        ELSE 0
Fields(ab, i, seen) ==
    LET st == AbiStructs(ab)[i]
        own == st.e[3].e
        b == st.e[2].b
        j == BaseStruct(ab, b, {})
        up == Fields(ab, j, seen \cup {i})
    IN  IF i \in seen THEN [ok |-> FALSE, fs |-> <<>>]
        ELSE IF b = <<>> THEN [ok |-> TRUE, fs |-> own]
        ELSE IF j = 0 THEN [ok |-> FALSE, fs |-> <<>>]
        ELSE IF ~up.ok THEN up
        ELSE [ok |-> TRUE, fs |-> up.fs \o own]

(***************************************************************************)
(* The type names reachable from a name, and the least fixpoint of those   *)
(* that have any finite value at all.                                      *)
(***************************************************************************)
Refs(ab, nm) ==     \* names a name refers to directly
    LET c == Class(ab, Split(nm).base)
    IN  CASE c.c = "struct" -> LET f == Fields(ab, c.i, {})
                               IN  IF f.ok THEN {f.fs[k].e[2].b : k \in 1..Len(f.fs)} ELSE {}
          [] c.c = "variant" -> LET ts == AbiVariants(ab)[c.i].e[2].e IN {ts[k].b : k \in 1..Len(ts)}
          [] c.c = "alias" -> {AbiTypes(ab)[c.i].e[2].b}
          [] OTHER -> {}
RECURSIVE Reach(_, _, _)
Reach(ab, done, todo) ==
    IF todo = {} THEN done
    ELSE LET d == done \cup todo
         IN  Reach(ab, d, (UNION {Refs(ab, n) : n \in todo}) \ d)
Reachable(ab, nm) == Reach(ab, {}, {nm})

\* one name resolves to something: not undefined, no struct with a bad base
Defined(ab, nm) == LET c == Class(ab, Split(nm).base)
                   IN  CASE c.c = "none" -> FALSE
                         [] c.c = "struct" -> Fields(ab, c.i, {}).ok
                         [] OTHER -> TRUE

RECURSIVE Grow(_, _, _)
Grow(ab, all, good) ==
    LET Good(nm) == nm \in good
        Now(nm) == LET p == Split(nm)
                       c == Class(ab, p.base)
                   IN  \/ Defined(ab, nm) /\ (p.opt \/ p.arr)
                       \/ c.c = "builtin"
                       \/ c.c = "alias" /\ Good(AbiTypes(ab)[c.i].e[2].b)
                       \/ c.c = "struct" /\ LET f == Fields(ab, c.i, {})
                                            IN  f.ok /\ \A k \in 1..Len(f.fs) : Split(f.fs[k].e[2].b).ext \/ Good(f.fs[k].e[2].b)
                       \/ c.c = "variant" /\ LET ts == AbiVariants(ab)[c.i].e[2].e
                                             IN  \E k \in 1..Len(ts) : Good(ts[k].b)
        next == good \cup {nm \in all : Now(nm)}
    IN  IF next = good THEN good ELSE Grow(ab, all, next)
Inhabited(ab, nm) == nm \in Grow(ab, Reachable(ab, nm), {})

\* an alias that leads back to itself
RECURSIVE AliasLoop(_, _, _)
AliasLoop(ab, nm, seen) ==
    LET c == Class(ab, Split(nm).base)
    IN  c.c = "alias" /\ (nm \in seen \/ AliasLoop(ab, AbiTypes(ab)[c.i].e[2].b, seen \cup {nm}))

\* every name reachable resolves and none is defined in terms of itself only
Sound(ab, nm) == LET all == Reachable(ab, nm)
                     good == Grow(ab, all, {})
                 IN  \A n \in all : Defined(ab, n) /\ n \in good /\ ~AliasLoop(ab, n, {})

\* the type or a chain of aliases from it is optional, so nil is a value of it
RECURSIVE CanBeNil(_, _, _)
CanBeNil(ab, nm, d) ==
    LET p == Split(nm)
        c == Class(ab, p.base)
    IN  p.opt \/ (~p.arr /\ d > 0 /\ c.c = "alias" /\ CanBeNil(ab, AbiTypes(ab)[c.i].e[2].b, d - 1))

---------------------------------------------------------------------------
\* How deep values may nest before refusing them is also correct.
DeepLimit == 40
Deep == [s |-> "deep", v |-> Nil, i |-> 0, amb |-> TRUE]

FieldNode(nm, v) == Node("f", nm, <<v>>)
MapNode(fs) == Node("map", <<>>, Sorted(Ty("field"), fs))
StrNode(b) == Node("str", <<>>, <<Node("s", b, <<>>)>>)

RECURSIVE DDec(_, _, _, _, _, _), DMany(_, _, _, _, _, _, _, _), DInner(_, _, _, _, _, _), DFields(_, _, _, _, _, _, _, _, _)

DDec(ab, nm, b, i, en, d) ==
    LET p == Split(nm)
        j == IF p.opt THEN i + 1 ELSE i
        odd == p.opt /\ i <= Len(b) /\ b[i] > 1
        r == IF p.arr
             THEN LET l == DecVarU(b, j)
                  IN  IF l.s # "ok" THEN l
                      ELSE DMany(ab, p.base, b, l.i, en, MagClamp(l.v.b, Len(b) + 300), <<>>, [d |-> d, amb |-> l.amb])
             ELSE DInner(ab, p.base, b, j, en, d)
    IN  IF d > DeepLimit THEN Deep
        ELSE IF p.opt /\ i > Len(b) THEN Fail("end", FALSE)
        ELSE IF p.opt /\ b[i] = 0 THEN Ok(Nil, i + 1)
        ELSE [r EXCEPT !.amb = r.amb \/ odd]

DMany(ab, base, b, i, en, n, acc, x) ==
    IF n = 0 THEN R("ok", Node("slice", <<>>, acc), i, x.amb)
    ELSE LET r == DInner(ab, base, b, i, en, x.d)
         IN  IF r.s # "ok" THEN [r EXCEPT !.amb = r.amb \/ x.amb]
             ELSE DMany(ab, base, b, r.i, en, n - 1, Append(acc, r.v), [x EXCEPT !.amb = x.amb \/ r.amb])

DInner(ab, base, b, i, en, d) ==
    LET c == Class(ab, base)
    IN  CASE c.c = "alias" -> DDec(ab, AbiTypes(ab)[c.i].e[2].b, b, i, en, d + 1)
          [] c.c = "struct" -> LET f == Fields(ab, c.i, {})
                               IN  IF ~f.ok THEN Fail("bad", FALSE)
                                   ELSE DFields(ab, f.fs, 1, b, i, en, d + 1, <<>>, FALSE)
          [] c.c = "variant" ->
                LET ts == AbiVariants(ab)[c.i].e[2].e
                    l == DecVarU(b, i)
                    n == MagClamp(l.v.b, Len(ts))
                IN  IF l.s # "ok" THEN l
                    ELSE IF n >= Len(ts) THEN Fail("bad", FALSE)
                    ELSE LET r == DDec(ab, ts[n + 1].b, b, l.i, en, d + 1)
                         IN  IF r.s # "ok" THEN [r EXCEPT !.amb = r.amb \/ l.amb]
                             ELSE R("ok", Node("slice", <<>>, <<StrNode(ts[n + 1].b), r.v>>), r.i, r.amb \/ l.amb)
          [] c.c = "builtin" -> LET k == Builtins[c.i].k
                                IN  MapR(Dec(Ty(k), b, i, en), LAMBDA v : Node(k, <<>>, <<v>>))
          [] OTHER -> Fail("bad", FALSE)

DFields(ab, fs, k, b, i, en, d, acc, amb) ==
    IF k > Len(fs) THEN R("ok", MapNode(acc), i, amb)
    ELSE LET nm == fs[k].e[2].b
             r == DDec(ab, nm, b, i, en, d)
         IN  IF Split(nm).ext /\ i > Len(b) /\ en = "eof"
             THEN DFields(ab, fs, k + 1, b, i, en, d, acc, amb)
             ELSE IF r.s # "ok" THEN [r EXCEPT !.amb = r.amb \/ amb]
             ELSE DFields(ab, fs, k + 1, b, r.i, en, d, Append(acc, FieldNode(fs[k].e[1].b, r.v)), amb \/ r.amb)

---------------------------------------------------------------------------
\* encoding: [s, b, amb]
ER(s, b, amb) == [s |-> s, b |-> b, amb |-> amb]
EBad == ER("bad", <<>>, FALSE)
Then(x, y) == IF x.s # "ok" THEN x ELSE IF y.s # "ok" THEN y ELSE ER("ok", x.b \o y.b, x.amb \/ y.amb)

HasField(v, nm) == \E i \in 1..Len(v.e) : v.e[i].b = nm
FieldOf(v, nm) == v.e[SelectInSeq(v.e, LAMBDA f : f.b = nm)].e[1]

RECURSIVE DEnc(_, _, _, _), EMany(_, _, _, _, _, _), EInner(_, _, _, _), EFields(_, _, _, _, _, _, _)

DEnc(ab, nm, v, d) ==
    LET p == Split(nm)
        c == Class(ab, p.base)
        body == IF p.arr
                THEN (IF v.k # "slice" THEN EBad
                      ELSE EMany(ab, p.base, v.e, 1, ER("ok", VarU(Len(v.e)), FALSE), d))
                ELSE EInner(ab, p.base, v, d)
    IN  IF d > DeepLimit THEN ER("deep", <<>>, TRUE)
        ELSE IF p.opt /\ v.k = "nil" THEN ER("ok", <<0>>, FALSE)
        ELSE IF v.k = "nil" /\ (p.arr \/ c.c # "alias") THEN EBad
        ELSE IF p.opt THEN Then(ER("ok", <<1>>, FALSE), body)
        ELSE body

EMany(ab, base, vs, k, acc, d) ==
    IF acc.s # "ok" \/ k > Len(vs) THEN acc
    ELSE EMany(ab, base, vs, k + 1, Then(acc, EInner(ab, base, vs[k], d)), d)

EInner(ab, base, v, d) ==
    LET c == Class(ab, base)
    IN  CASE c.c = "alias" -> DEnc(ab, AbiTypes(ab)[c.i].e[2].b, v, d + 1)
          [] c.c = "struct" ->
                LET f == Fields(ab, c.i, {})
                    names == {f.fs[k].e[1].b : k \in 1..Len(f.fs)}
                    extra == \E k \in 1..Len(v.e) : v.e[k].b \notin names
                IN  IF v.k # "map" \/ ~f.ok THEN EBad
                    \* entries the struct does not have may be ignored or refused
                    ELSE LET r == EFields(ab, f.fs, 1, v, FALSE, ER("ok", <<>>, FALSE), d + 1)
                         IN  [r EXCEPT !.amb = r.amb \/ extra]
          [] c.c = "variant" ->
                LET ts == AbiVariants(ab)[c.i].e[2].e
                    n == IF v.k = "slice" /\ Len(v.e) = 2 /\ v.e[1].k = "str"
                         THEN SelectInSeq(ts, LAMBDA x : x.b = v.e[1].e[1].b) ELSE 0
                IN  IF n = 0 THEN EBad
                    ELSE Then(ER("ok", VarU(n - 1), FALSE), DEnc(ab, ts[n].b, v.e[2], d + 1))
          [] c.c = "builtin" ->
                LET x == Builtins[c.i]
                IN  IF v.k \notin x.acc THEN EBad
                    ELSE IF ~EncOk(Ty(v.k), v.e[1]) THEN EBad
                    ELSE ER("ok", Enc(Ty(v.k), v.e[1]), FALSE)
          [] OTHER -> EBad

EFields(ab, fs, k, v, absent, acc, d) ==
    IF acc.s # "ok" \/ k > Len(fs) THEN acc
    ELSE LET nm == fs[k].e[2].b
             has == HasField(v, fs[k].e[1].b)
             x == IF has THEN FieldOf(v, fs[k].e[1].b) ELSE Nil
             ext == Split(nm).ext
             gone == ext /\ (~has \/ (x.k = "nil" /\ ~CanBeNil(ab, nm, DeepLimit)))
         IN  IF gone THEN EFields(ab, fs, k + 1, v, TRUE, acc, d)
             ELSE IF absent THEN EBad
             \* a missing entry of an optional type may also be refused
             ELSE LET y == DEnc(ab, nm, x, d)
                  IN  EFields(ab, fs, k + 1, v, FALSE, [Then(acc, y) EXCEPT !.amb = acc.amb \/ y.amb \/ ~has], d)
=============================================================================
