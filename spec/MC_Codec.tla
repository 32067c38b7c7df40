------------------------------ MODULE MC_Codec ------------------------------
(***************************************************************************)
(* Every type built by at most Depth constructors from a few leaves, with  *)
(* every value of a small universe, taken through one of these sessions:   *)
(*   stream  encode two values, decode both into one variable, encode it   *)
(*   cuts    decode every prefix of an encoding; the input ends or fails   *)
(*   faults  encode against a writer failing at every point                *)
(*   reuse   decode into a used variable: a prefix first, then all of it   *)
(*   paths   through every encoder and decoder, by value and by pointer    *)
(*   cust    the same with a custom function that takes over some types    *)
(*   chunks  from readers that hand out their data in every pattern        *)
(*   again   several times over; what was decoded earlier stays as it was  *)
(*   bytes   decode every short byte string                                *)
(*   mix     three values of three types in one stream, in any order       *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Depth, Mode, Exts, Big

\* --- types
Leaves == IF Mode = "cust" THEN {Ty("u16x"), Ty("namex"), Ty("u8"), Ty("str")}
          ELSE IF Mode = "mix" THEN {}
          ELSE IF Big THEN {Ty("u8"), Ty("bool"), Ty("vu"), Ty("str"), Ty("vi"), Ty("u16"), Ty("name"), Ty("cbytes"), Ty("ni32"), Ty("u24"), Ty("f32")}
          ELSE {Ty("u8"), Ty("bool"), Ty("vu"), Ty("str")}
P(ty) == IF ty.t = "ptr" THEN ty ELSE Ptr(ty)
Builds(ty) == (IF ty.t = "ptr" THEN {} ELSE {Ptr(ty)})
    \cup {Slice(ty), Arr(2, ty), MapT(Ty("u8"), ty), Struct(<<ty, Ty("u8")>>),
          Struct(<<Tag(P(ty), "optional"), Ty("bool")>>),
          Struct(<<Tag(Struct(<<Ptr(Ty("u8")), P(ty)>>), "variant")>>)}
Ext(ty) == {Struct(<<Ty("u8"), Tag(P(ty), "extension"), Tag(Ptr(Ty("u8")), "extension")>>),
            Struct(<<Ty("bool"), Tag(ty, "extension")>>)}
RECURSIVE Types(_)
Types(d) == IF d = 0 THEN Leaves ELSE Types(d - 1) \cup UNION {Builds(ty) : ty \in Types(d - 1)}
AllTypes == IF Exts THEN UNION {Ext(ty) : ty \in Types(Depth)} ELSE Types(Depth)

\* --- values
Str(b) == Node("s", b, <<>>)
RECURSIVE Vals(_)
AnyOf(S) == CHOOSE x \in S : TRUE
RECURSIVE Product(_, _)
Product(fs, i) == IF i > Len(fs) THEN {<<>>} ELSE {<<x>> \o r : x \in Vals(fs[i]), r \in Product(fs, i + 1)}
Vals(ty) ==
    IF ty.g = "optional" THEN Vals(Tag(ty, "")) \cup {Zero(Tag(ty, ""))}
    ELSE IF ty.g = "variant" THEN
        LET st == IF ty.t = "ptr" THEN ty.e[1] ELSE ty
        IN  UNION {{Node("v", <<i - 1>>, <<x>>) : x \in Vals(st.e[i])} : i \in 1..Len(st.e)}
    ELSE IF ty.g = "extension" THEN Vals(Tag(ty, "")) \cup (IF ty.t = "ptr" THEN {Nil} ELSE {})
    ELSE CASE ty.t \in {"u8", "u16", "u24", "name", "f32", "u16x", "namex"} -> {Nat0(<<>>), Nat0(<<200>>)}
           [] ty.t = "bool" -> {Nat0(<<>>), Nat0(<<1>>)}
           [] ty.t = "vu" -> {Nat0(<<>>), Nat0(<<1, 44>>)}
           [] ty.t \in {"vi", "ni32"} -> {Node("m", <<100>>, <<>>), Nat0(<<1, 0>>)}
           [] ty.t \in LenKinds -> {Str(<<>>), Str(<<97, 98>>)}
           [] ty.t = "ptr" -> Vals(ty.e[1])
           [] ty.t = "slice" -> LET V == Vals(ty.e[1])
                                IN  {Seqv(<<>>)} \cup {Seqv(<<x>>) : x \in V} \cup {Seqv(<<x, AnyOf(V)>>) : x \in V}
           [] ty.t = "array" -> LET V == Vals(ty.e[1]) IN {Seqv(<<x, AnyOf(V)>>) : x \in V}
           [] ty.t = "map" -> LET V == Vals(ty.e[2])
                              IN  {Seqv(<<>>)} \cup {Seqv(<<Seqv(<<Nat0(<<9>>), x>>)>>) : x \in V}
                                  \cup {Seqv(<<Seqv(<<Nat0(<<9>>), x>>), Seqv(<<Nat0(<<>>), AnyOf(V)>>)>>) : x \in V}
           [] ty.t = "struct" -> {Seqv(s) : s \in Product(ty.e, 1)}
Good(ty) == {v \in Vals(ty) : EncOk(ty, v)}

\* --- sessions
Paths == {"chain", "plain", "decl"}
Chunks == {<<>>, <<1>>, <<2, 0, 1>>}
MCInit == /\ MInit /\ sc = <<>> /\ ph = "type" /\ ch = [t |-> Ty("u8"), v |-> Nil, u |-> Nil, p |-> "chain", c |-> <<>>]

Sel(ty, v) == LET n == Len(Enc(ty, v)) IN [p |-> (CASE n % 3 = 0 -> "chain" [] n % 3 = 1 -> "plain" [] OTHER -> "decl"),
                                           c |-> (CASE n % 2 = 0 -> <<>> [] n % 4 = 1 -> <<1>> [] OTHER -> <<2, 0, 1>>)]
Choose == /\ ph = "type" /\ Mode \notin {"bytes", "mix"}
          /\ \E ty \in AllTypes : \E v \in Good(ty) : LET u == AnyOf(Good(ty)) IN
                ch' = [t |-> ty, v |-> v, u |-> u, p |-> Sel(ty, v).p, c |-> Sel(ty, v).c]
          /\ ph' = Mode
          /\ UNCHANGED <<mvars, sc>>

To(p) == ph' = p /\ UNCHANGED ch
n1 == Len(Enc(ch.t, ch.v))
n2 == Len(Enc(ch.t, ch.u))

\* stream
S1 == ph = "stream" /\ Call(EEnc(ch.t, ch.v, ch.p, "val"), PEnc(ch.t, ch.v)) /\ To("s2")
S2 == ph = "s2" /\ Call(EEnc(ch.t, ch.u, "chain", "ptr"), PEnc(ch.t, ch.u)) /\ To("s3")
S3 == ph = "s3" /\ Call(EOpen("eof", ch.c, 0), POpen(w, 1, Len(w))) /\ To("s4")
S4 == ph = "s4" /\ Call(EDec(ch.t, 1, ch.p), PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("s5")
S5 == ph = "s5" /\ Call(EDec(ch.t, 1, "chain"), PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("s6")
S6 == ph = "s6" /\ Call(EEncS(ch.t, 1, ch.p), PEnc(ch.t, sl[1].v)) /\ To("end")

\* cuts
CutsOf(ty, d, en) == [k \in 1..(Len(d) + 1) |-> PDec(ty, SubSeq(d, 1, k - 1), 1, en) @@ ("k" :> (k - 1))]
K1 == ph = "cuts" /\ Call(EEnc(ch.t, ch.v, ch.p, "val"), PEnc(ch.t, ch.v)) /\ To("k2")
K2 == ph = "k2" /\ Call(ECuts(ch.t, "eof", ch.p, ch.c), [out |-> "ok", d |-> w, rs |-> CutsOf(ch.t, w, "eof")]) /\ To("k3")
K3 == ph = "k3" /\ Call(ECuts(ch.t, "err", ch.p, ch.c), [out |-> "ok", d |-> w, rs |-> CutsOf(ch.t, w, "err")]) /\ To("end")

\* faults
F1 == ph = "faults" /\ \E once \in BOOLEAN :
        Call(EFaults(ch.t, ch.v, ch.p, once, once),
             [out |-> "ok", rs |-> [k \in 1..n1 |-> PLim(ch.t, ch.v, k - 1)]]) /\ To("end")

\* reuse
R1 == ph = "reuse" /\ Call(EPoke(ch.t, 1, ch.u), [out |-> "ok"]) /\ To("r2")
R2 == ph = "r2" /\ Call(EEnc(ch.t, ch.v, ch.p, "val"), PEnc(ch.t, ch.v)) /\ To("r3")
R3 == ph = "r3" /\ \E k \in {k \in {1, n1 - 1} : k > 0} :
        Call(EOpen("eof", <<>>, k), POpen(SubSeq(w, 1, k), 1, k)) /\ To("r4")
R4 == ph = "r4" /\ Call(EDec(ch.t, 1, ch.p), PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("r5")
R5 == ph \in {"r3", "r5"} /\ Call(EOpen("eof", ch.c, 0), POpen(w, 1, Len(w))) /\ To("r6")
R6 == ph = "r6" /\ Call(EDec(ch.t, 1, "chain"), PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("r7")
R7 == ph = "r7" /\ Call(ELook(ch.t, 1), [out |-> "ok", v |-> sl[1].v]) /\ To("end")

\* paths: encode through all, decode through all
Ways(ps, bs) == [i \in 1..(Len(ps) * Len(bs)) |-> [p |-> ps[1 + (i - 1) \div Len(bs)], b |-> bs[1 + ((i - 1) % Len(bs))]]]
EWays == IF Mode = "cust" THEN Ways(<<"cust", "custplain">>, <<"val", "ptr">>) ELSE Ways(<<"chain", "plain", "decl">>, <<"val", "ptr">>)
P1 == ph \in {"paths", "cust"} /\ To("p2") /\ UNCHANGED <<mvars, sc>>
P2 == /\ ph = "p2"
      /\ LET i == Len(sc) + 1 IN IF i <= Len(EWays)
            THEN Call(EEnc(ch.t, ch.v, EWays[i].p, EWays[i].b), PEnc(ch.t, ch.v)) /\ To("p2")
            ELSE Call(EOpen("eof", ch.c, 0), POpen(w, 1, Len(w))) /\ To("p3")
P3 == /\ ph = "p3"
      /\ LET i == Len(sc) - Len(EWays) IN IF i <= Len(EWays)
            THEN Call(EDec(ch.t, 1, EWays[i].p), PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("p3")
            ELSE To("end") /\ UNCHANGED <<mvars, sc>>

\* chunks: patterns of read sizes; the last data alone or together with the end
Patterns == {<<1>>, <<2>>, <<0, 1>>, <<1, 0, 0, 2>>, <<3, 1>>, <<5>>}
C1 == ph = "chunks" /\ Call(EEnc(ch.t, ch.v, "chain", "val"), PEnc(ch.t, ch.v)) /\ To("c2")
C2 == ph = "c2" /\ \E c \in Patterns, wi \in BOOLEAN :
        Call(EOpen("eof", c, 0) @@ ("with" :> wi), POpen(w, 1, Len(w))) /\ To("c3")
C3 == ph = "c3" /\ Call(EDec(ch.t, 1, ch.p), PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("c4")
C4 == ph = "c4" /\ Call(EDec(ch.t, 2, ch.p), PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("end")

\* again: two variables filled from one stream do not disturb each other, nor does encoding them
G1 == ph = "again" /\ Call(EEnc(ch.t, ch.v, ch.p, "ptr"), PEnc(ch.t, ch.v)) /\ To("g2")
G2 == ph = "g2" /\ Call(EEnc(ch.t, ch.u, ch.p, "ptr"), PEnc(ch.t, ch.u)) /\ To("g3")
G3 == ph = "g3" /\ Call(EEnc(ch.t, ch.v, "plain", "val"), PEnc(ch.t, ch.v)) /\ To("g4")
G4 == ph = "g4" /\ Call(EOpen("eof", <<>>, 0), POpen(w, 1, Len(w))) /\ To("g5")
G5 == ph = "g5" /\ Call(EDec(ch.t, 1, ch.p), PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("g6")
G6 == ph = "g6" /\ Call(EDec(ch.t, 2, ch.p), PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("g7")
G7 == ph = "g7" /\ Call(EEncS(ch.t, 2, ch.p), PEnc(ch.t, sl[2].v)) /\ To("g8")
G8 == ph = "g8" /\ Call(ELook(ch.t, 1), [out |-> "ok", v |-> sl[1].v]) /\ To("g9")
G9 == ph = "g9" /\ Call(ELook(ch.t, 2), [out |-> "ok", v |-> sl[2].v]) /\ To("g10")
G10 == ph = "g10" /\ Call(EEncS(ch.t, 1, ch.p), PEnc(ch.t, sl[1].v)) /\ To("end")

\* bytes: every byte string over a few bytes, up to length 4 (Big: 5), one session per type and first two bytes
Bs == <<0, 1, 2, 128, 255>>
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE LET S == Strings(n - 1) IN S \cup {Append(x, Bs[i]) : x \in {y \in S : Len(y) = n - 1}, i \in 1..Len(Bs)}
Tails0 == SetToSeq(Strings(IF Big THEN 3 ELSE 2))
B1 == /\ ph = "type" /\ Mode = "bytes"
      /\ \E ty \in AllTypes : \E h \in Strings(2) : ch' = [t |-> ty, v |-> Nil, u |-> Nil, p |-> (CASE Len(h) = 0 -> "chain" [] Len(h) = 1 -> "plain" [] OTHER -> "decl"), c |-> h]
      /\ ph' = "b2" /\ UNCHANGED <<mvars, sc>>
B2 == /\ ph = "b2" /\ Len(sc) < 2 * Len(Tails0) /\ (Len(ch.c) = 2 \/ Len(sc) = 0)
      /\ LET d == ch.c \o (IF Len(ch.c) = 2 THEN Tails0[1 + Len(sc) \div 2] ELSE <<>>) IN Call(ELit(d, "eof"), PLit(d))
      /\ To("b3")
B3 == ph = "b3" /\ Call(EDec(ch.t, 1, ch.p), PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("b2")
B4 == ph = "b2" /\ (Len(sc) >= 2 * Len(Tails0) \/ (Len(ch.c) < 2 /\ Len(sc) > 0)) /\ To("end") /\ UNCHANGED <<mvars, sc>>

\* mix: any three of these, written one after the other and read back, the decoders alternating
Menu == <<[t |-> Ty("u8"), v |-> Nat0(<<7>>)], [t |-> Ty("vu"), v |-> Nat0(<<1, 44>>)], [t |-> Ty("str"), v |-> Str(<<97, 98, 99>>)], [t |-> Ty("str"), v |-> Str(<<>>)],
          [t |-> Slice(Ty("u16")), v |-> Seqv(<<Nat0(<<1, 2>>), Nat0(<<3>>)>>)], [t |-> Struct(<<>>), v |-> Seqv(<<>>)],
          [t |-> Struct(<<Tag(Ptr(Ty("u8")), "optional"), Ty("bool")>>), v |-> Seqv(<<Nil, Nat0(<<1>>)>>)],
          [t |-> MapT(Ty("str"), Ty("vi")), v |-> Seqv(<<Seqv(<<Str(<<98>>), Node("m", <<5>>, <<>>)>>), Seqv(<<Str(<<97>>), Nat0(<<9>>)>>)>>)],
          [t |-> Ty("name"), v |-> Nat0(<<1, 2, 3, 4, 5, 6, 7, 8>>)], [t |-> Ty("asset"), v |-> Seqv(<<Node("m", <<100>>, <<>>), Nat0(<<83, 79, 69, 4>>)>>)],
          [t |-> Ty("cbytes"), v |-> Str(<<0, 255>>)], [t |-> Ty("c160"), v |-> Str([i \in 1..20 |-> i])], [t |-> Ty("uint128"), v |-> Nat0(<<1, 0, 0, 0, 0, 0, 0, 0, 0>>)],
          [t |-> Ty("action"), v |-> Seqv(<<Nat0(<<5>>), Nat0(<<6>>), Seqv(<<Seqv(<<Nat0(<<1>>), Nat0(<<2>>)>>)>>), Str(<<1, 2, 3>>)>>)],
          [t |-> Ty("pubkey"), v |-> Node("key", <<0, 2>> \o [i \in 1..32 |-> i], <<>>)], [t |-> Arr(2, Ty("i16")), v |-> Seqv(<<Node("m", <<1>>, <<>>), Nat0(<<1, 0>>)>>)]>>
X1 == /\ ph = "type" /\ Mode = "mix"
      /\ \E a \in 1..Len(Menu), b \in 1..Len(Menu), c \in 1..Len(Menu) : ch' = [t |-> Ty("u8"), v |-> Nil, u |-> Nil, p |-> "chain", c |-> <<a, b, c>>]
      /\ ph' = "x2" /\ UNCHANGED <<mvars, sc>>
PathNo(i) == CASE i % 3 = 0 -> "chain" [] i % 3 = 1 -> "plain" [] OTHER -> "decl"
X2 == /\ ph = "x2" /\ LET i == Len(sc) + 1
                      IN  IF i <= 3 THEN Call(EEnc(Menu[ch.c[i]].t, Menu[ch.c[i]].v, PathNo(i + ch.c[1]), IF i = 2 THEN "ptr" ELSE "val"), PEnc(Menu[ch.c[i]].t, Menu[ch.c[i]].v)) /\ To("x2")
                          ELSE Call(EOpen("eof", IF ch.c[2] % 2 = 0 THEN <<>> ELSE <<1, 3>>, 0), POpen(w, 1, Len(w))) /\ To("x3")
X3 == /\ ph = "x3" /\ LET i == Len(sc) - 3
                      IN  IF i <= 3 THEN Call(EDec(Menu[ch.c[i]].t, i, PathNo(i * ch.c[2])), PDec(Menu[ch.c[i]].t, rd.d, rd.p, rd.en)) /\ To("x3")
                          ELSE To("end") /\ UNCHANGED <<mvars, sc>>

Finish == /\ ph = "end" /\ Emit(sc) /\ ph' = "done" /\ UNCHANGED <<mvars, sc, ch>>
Done == ph = "done" /\ UNCHANGED MCvars

MCNext == Choose \/ S1 \/ S2 \/ S3 \/ S4 \/ S5 \/ S6 \/ K1 \/ K2 \/ K3 \/ F1
          \/ R1 \/ R2 \/ R3 \/ R4 \/ R5 \/ R6 \/ R7
          \/ P1 \/ P2 \/ P3 \/ C1 \/ C2 \/ C3 \/ C4 \/ G1 \/ G2 \/ G3 \/ G4 \/ G5 \/ G6 \/ G7 \/ G8 \/ G9 \/ G10
          \/ B1 \/ B2 \/ B3 \/ B4 \/ X1 \/ X2 \/ X3 \/ Finish \/ Done

\* --- what must hold of the specification itself
Same(a, b) == Canon(ch.t, a) = Canon(ch.t, b)
RoundTrip == /\ ph = "s5" => sl[1].st = "val" /\ Same(sl[1].v, ch.v) /\ rd.p = n1 + 1
             /\ ph = "s6" => sl[1].st = "val" /\ Same(sl[1].v, ch.u) /\ rd.p = Len(rd.d) + 1
             /\ (ph = "end" /\ Mode = "stream") => w = Enc(ch.t, ch.v) \o Enc(ch.t, ch.u) \o Enc(ch.t, ch.u)
\* a variable that was used before holds exactly the new value
Fresh == ph = "r7" => sl[1].st = "val" /\ Same(sl[1].v, ch.v)
\* whatever the way in and out, it is the same value
Agree == /\ (ph = "p3" /\ Len(sc) > Len(EWays) + 1) => sl[1].st = "val" /\ Same(sl[1].v, ch.v)
         /\ (ph = "end" /\ Mode \in {"paths", "cust"}) => rd.p = Len(rd.d) + 1 /\ Len(rd.d) = Len(EWays) * n1
         /\ (ph = "c4") => sl[1].st = "val" /\ Same(sl[1].v, ch.v) /\ rd.p = n1 + 1
         /\ (ph = "end" /\ Mode = "again") => Same(sl[1].v, ch.v) /\ Same(sl[2].v, ch.u)
IsPtrExt(ty) == \A i \in 1..Len(ty.e) : ty.e[i].g = "extension" => ty.e[i].t = "ptr"
\* what a byte string decodes to is encoded in no more bytes, and decodes from them again
Tight == (ph = "b2" /\ (Exts => IsPtrExt(ch.t)) /\ sc # <<>> /\ sl[1].st = "val") =>
    LET b == Enc(ch.t, sl[1].v) IN /\ EncOk(ch.t, sl[1].v) /\ Len(b) <= rd.p - 1 /\ Same(Dec(ch.t, b, 1, "eof").v, sl[1].v)
\* the stream is used up exactly, and every value has come back
Delimited == (ph = "end" /\ Mode = "mix") => rd.p = Len(rd.d) + 1 /\ \A i \in 1..3 : LET m == Menu[ch.c[i]] IN sl[i].st = "val" /\ Canon(m.t, sl[i].v) = Canon(m.t, m.v)
\* truncation is noticed; with extensions, except just before one
Boundaries(ty, v) == {Len(FlattenSeq([i \in 1..j |-> Enc(ty.e[i], v.e[i])])) : j \in {j \in 0..Len(ty.e) : \A i \in (j + 1)..Len(ty.e) : ty.e[i].g = "extension"}}
Truncation == ph = "k2" =>
    \A k \in 0..(n1 - 1) :
        LET r == Dec(ch.t, SubSeq(w, 1, k), 1, "eof")
            x == Dec(ch.t, SubSeq(w, 1, k), 1, "err")
        IN  /\ ~Exts => r.s = "end"
            /\ Exts => (r.s = "ok" <=> k \in Boundaries(ch.t, ch.v))
            /\ x.s = "end"
\* no encoding begins another one of the same type, and different values have different encodings
PrefixFree == (ph = Mode /\ ~Exts) =>
    \A y \in Good(ch.t) : IsPrefixOf(Enc(ch.t, ch.v), Enc(ch.t, y)) => Same(ch.v, y)
\* input that is one byte short of minimal never satisfies MinSize
Sizes == ph = Mode => n1 >= MinSize(ch.t)
=============================================================================
