-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The EOSIO binary format: what Enc writes for a typed value and what Dec *)
(* makes of a byte string.  This is the reference meaning of pkg/abi and   *)
(* of the chain objects' own MarshalABI/UnmarshalABI.                      *)
(*                                                                         *)
(* Type node   [t, n, e, g]  t kind, n array length or raw size, e element *)
(*             types / fields, g the field's tag ("", "optional",          *)
(*             "variant", "extension").                                    *)
(* Value node  [k, b, e]     "n"/"m" number, "s" byte string, "q" sequence *)
(*             (struct, slice, array, map as pairs), "nil", "v" variant    *)
(*             (b = chosen indices), "key" (b = type byte and data).       *)
(***************************************************************************)
EXTENDS Num, TLC

Ty(t)      == [t |-> t, n |-> 0, e |-> <<>>, g |-> ""]
TyN(t, n)  == [t |-> t, n |-> n, e |-> <<>>, g |-> ""]
TyE(t, e)  == [t |-> t, n |-> 0, e |-> e, g |-> ""]
Tag(ty, g) == [ty EXCEPT !.g = g]
Struct(fs) == TyE("struct", fs)
Slice(ty)  == TyE("slice", <<ty>>)
Ptr(ty)    == TyE("ptr", <<ty>>)
Arr(n, ty) == [t |-> "array", n |-> n, e |-> <<ty>>, g |-> ""]
MapT(k, v) == TyE("map", <<k, v>>)

\* unsigned and signed fixed-width kinds and their sizes in bytes
UWidth == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8, nu32 |-> 4, nu64 |-> 8,
           f32 |-> 4, f64 |-> 8, u24 |-> 3,
           name |-> 8, symbol |-> 8, symcode |-> 8, uint64 |-> 8, uint128 |-> 16,
           blocknum |-> 4, tps |-> 4, bts |-> 4]
SWidth == [i8 |-> 1, i16 |-> 2, i32 |-> 4, i64 |-> 8, ni32 |-> 4, ni64 |-> 8,
           tp |-> 8, int128 |-> 16]
UKinds == DOMAIN UWidth
SKinds == DOMAIN SWidth
LenKinds == {"str", "bytes", "cbytes", "blob"}
RawSize == [c160 |-> 20, c256 |-> 32, c512 |-> 64, float128 |-> 16]
RawKinds == DOMAIN RawSize
BEKinds == [u16x |-> 2, namex |-> 8]        \* kinds taken over by the custom function
KeyKinds == {"pubkey", "sig"}

\* chain objects made of other types
PermT   == Struct(<<Ty("name"), Ty("name")>>)
ActionT == Struct(<<Ty("name"), Ty("name"), Slice(Ty("perm")), Ty("cbytes")>>)
TxHdrT  == Struct(<<Ty("tps"), Ty("u16"), Ty("u32"), Ty("vu"), Ty("u8"), Ty("vu")>>)
TxExtT  == Struct(<<Ty("u16"), Ty("cbytes")>>)
TxT     == Struct(<<Ty("txhdr"), Slice(Ty("action")), Slice(Ty("action")), Slice(Ty("txext"))>>)
AssetT  == Struct(<<Ty("i64"), Ty("symbol")>>)
ExtAssetT == Struct(<<Ty("asset"), Ty("name")>>)
Str2T   == Struct(<<Ty("str"), Ty("str")>>)
AbiStructT == Struct(<<Ty("str"), Ty("str"), Slice(Ty("abifield"))>>)
AbiActionT == Struct(<<Ty("name"), Ty("str"), Ty("str")>>)
AbiTableT  == Struct(<<Ty("name"), Ty("str"), Slice(Ty("str")), Slice(Ty("str")), Ty("str")>>)
AbiErrT    == Struct(<<Ty("uint64"), Ty("str")>>)
AbiVarT    == Struct(<<Ty("str"), Slice(Ty("str"))>>)
AbiT == Struct(<<Ty("str"), Slice(Ty("abitype")), Slice(Ty("abistruct")), Slice(Ty("abiaction")),
                 Slice(Ty("abitable")), Slice(Ty("abiclause")), Slice(Ty("abierr")),
                 Slice(Ptr(Ty("abiext"))), Tag(Slice(Ty("abivariant")), "extension")>>)

\* user-defined types with names of their own: recursive ones, and one with an embedded struct and
\* named slice, array and map types
ListT == Struct(<<Ty("u8"), Tag(Ptr(Ty("list")), "optional")>>)
TreeT == Struct(<<Ty("u16"), Slice(Ty("tree"))>>)
RVarT == Struct(<<Tag(Struct(<<Ptr(Ty("u8")), Ptr(Ty("rvar")), Ptr(Slice(Ty("rvar")))>>), "variant")>>)
RMapT == Struct(<<MapT(Ty("u8"), Ty("rmap"))>>)
EmbT  == Struct(<<Ty("u8"), Ty("str")>>)
NestT == Struct(<<Ty("emb"), Slice(Ty("u16")), Arr(2, Ty("u32")), MapT(Ty("str"), Ty("u8")),
                  Tag(Ptr(Ty("emb")), "optional"), Slice(Ptr(Ty("emb"))), Ty("u24"), Slice(Slice(Ty("u24")))>>)
TwinAT == Struct(<<Ty("u8"), Tag(Ptr(Ty("u16")), "optional"), Ty("str")>>)     \* two types of one name
TwinBT == Struct(<<Tag(Ptr(Ty("u16")), "optional"), Ty("u8"), Ty("bytes")>>)
UserKinds == {"list", "tree", "rvar", "rmap", "emb", "nest", "twina", "twinb"}

Expand(ty) ==
    CASE ty.t = "list" -> ListT
      [] ty.t = "tree" -> TreeT
      [] ty.t = "rvar" -> RVarT
      [] ty.t = "rmap" -> RMapT
      [] ty.t = "emb" -> EmbT
      [] ty.t = "nest" -> NestT
      [] ty.t = "twina" -> TwinAT
      [] ty.t = "twinb" -> TwinBT
      [] ty.t = "perm" -> PermT
      [] ty.t = "action" -> ActionT
      [] ty.t = "txhdr" -> TxHdrT
      [] ty.t = "txext" -> TxExtT
      [] ty.t = "tx" -> TxT
      [] ty.t = "asset" -> AssetT
      [] ty.t = "extasset" -> ExtAssetT
      [] ty.t \in {"abitype", "abifield", "abiclause"} -> Str2T
      [] ty.t = "abistruct" -> AbiStructT
      [] ty.t = "abiaction" -> AbiActionT
      [] ty.t = "abitable" -> AbiTableT
      [] ty.t = "abiext" -> TxExtT
      [] ty.t = "abierr" -> AbiErrT
      [] ty.t = "abivariant" -> AbiVarT
      [] ty.t = "abi" -> AbiT

Nil == Node("nil", <<>>, <<>>)
Seqv(e) == Node("q", <<>>, e)

RECURSIVE Zero(_)
Zero(ty) ==
    IF ty.g = "variant" /\ ty.t = "struct" THEN Node("v", <<>>, <<>>)
    ELSE CASE ty.t \in UKinds \cup SKinds \cup {"bool", "vu", "vi"} \cup DOMAIN BEKinds -> Nat0(<<>>)
      [] ty.t \in LenKinds -> Node("s", <<>>, <<>>)
      [] ty.t \in RawKinds -> Node("s", Zeros(RawSize[ty.t]), <<>>)
      [] ty.t = "rawb" -> Node("s", Zeros(ty.n), <<>>)
      [] ty.t \in KeyKinds -> Node("key", <<0>>, <<>>)
      [] ty.t \in {"ptr", "any"} -> Nil
      [] ty.t \in {"slice", "map"} -> Seqv(<<>>)
      [] ty.t = "array" -> Seqv([i \in 1..ty.n |-> Zero(ty.e[1])])
      [] ty.t = "struct" -> Seqv([i \in 1..Len(ty.e) |-> Zero(ty.e[i])])
      [] OTHER -> Zero(Expand(ty))

(***************************************************************************)
(* Map entries are written in ascending key order.                         *)
(***************************************************************************)
KeyLess(kt, a, b) == IF kt.t \in LenKinds \cup RawKinds THEN BytesLess(a.b, b.b)
                     ELSE NumLess(a, b)
\* kt: the type of the keys of pairs, or Ty("field") for named fields
PairLess(kt, p, q) == IF kt.t = "field" THEN BytesLess(p.b, q.b) ELSE KeyLess(kt, p.e[1], q.e[1])

\* sorting by merging: there can be many
RECURSIVE Merge(_, _, _, _, _, _)
Merge(kt, a, i, b, j, acc) ==
    IF i > Len(a) THEN acc \o SubSeq(b, j, Len(b))
    ELSE IF j > Len(b) THEN acc \o SubSeq(a, i, Len(a))
    ELSE IF PairLess(kt, b[j], a[i]) THEN Merge(kt, a, i, b, j + 1, Append(acc, b[j]))
    ELSE Merge(kt, a, i + 1, b, j, Append(acc, a[i]))
RECURSIVE Sorted(_, _)
Sorted(kt, q) ==
    IF Len(q) < 12 THEN SortSeq(q, LAMBDA x, y : PairLess(kt, x, y))
    ELSE LET h == Len(q) \div 2
         IN  Merge(kt, Sorted(kt, SubSeq(q, 1, h)), 1, Sorted(kt, SubSeq(q, h + 1, Len(q))), 1, <<>>)

RECURSIVE Canon(_, _)
Canon(ty, v) ==
    IF v.k = "nil" THEN v
    ELSE IF ty.g = "variant" /\ ty.t = "struct" THEN
        [v EXCEPT !.e = [i \in 1..Len(v.b) |-> Canon(ty.e[v.b[i] + 1], v.e[i])]]
    ELSE CASE ty.t \in {"ptr", "any"} -> Canon(Tag(ty.e[1], ty.g), v)
      [] ty.t \in {"slice", "array"} -> [v EXCEPT !.e = [i \in 1..Len(v.e) |-> Canon(ty.e[1], v.e[i])]]
      [] ty.t = "map" ->
            LET ps == [i \in 1..Len(v.e) |->
                          Seqv(<<v.e[i].e[1], Canon(ty.e[2], v.e[i].e[2])>>)]
            IN  Seqv(Sorted(ty.e[1], ps))
      [] ty.t = "struct" -> [v EXCEPT !.e = [i \in 1..Len(v.e) |-> Canon(ty.e[i], v.e[i])]]
      [] ty.t \in UserKinds -> Canon(Expand(ty), v)
      [] OTHER -> v

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
IsAbsentExt(f, v) == f.g = "extension" /\ f.t = "ptr" /\ v.k = "nil"

RECURSIVE EncOk(_, _)
EncOk(ty, v) ==
    IF ty.g = "optional" THEN
        v = Zero(Tag(ty, "")) \/ EncOk(Tag(ty, ""), v)
    ELSE IF ty.g = "variant" THEN
        LET st == IF ty.t = "ptr" THEN ty.e[1] ELSE ty
        IN  v.k = "v" /\ Len(v.b) = 1 /\ v.b[1] < 256 /\ EncOk(st.e[v.b[1] + 1], v.e[1])
    ELSE IF IsAbsentExt(ty, v) THEN TRUE
    ELSE CASE ty.t \in {"ptr", "any"} -> v.k # "nil" /\ EncOk(ty.e[1], v)
      [] ty.t = "vu" -> FitsU(v, 32)
      [] ty.t = "vi" -> FitsS(v, 32)
      [] ty.t \in {"slice", "array"} -> \A i \in 1..Len(v.e) : EncOk(ty.e[1], v.e[i])
      [] ty.t = "map" -> \A i \in 1..Len(v.e) : EncOk(ty.e[1], v.e[i].e[1]) /\ EncOk(ty.e[2], v.e[i].e[2])
      [] ty.t = "struct" ->
            /\ \A i \in 1..Len(v.e) : EncOk(ty.e[i], v.e[i])
            \* nothing may follow an absent extension
            /\ \A i \in 1..Len(v.e) : IsAbsentExt(ty.e[i], v.e[i]) =>
                    \A j \in i..Len(v.e) : IsAbsentExt(ty.e[j], v.e[j])
      [] ty.t \in UKinds \cup SKinds \cup {"bool"} \cup DOMAIN BEKinds
                 \cup LenKinds \cup RawKinds \cup KeyKinds \cup {"rawb"} -> TRUE
      [] OTHER -> EncOk(Expand(ty), v)

RECURSIVE Enc(_, _)
EncAll(ty, vs) == FlattenSeq([i \in 1..Len(vs) |-> Enc(ty, vs[i])])
Enc(ty, v) ==
    IF ty.g = "optional" THEN
        (IF v = Zero(Tag(ty, "")) THEN <<0>> ELSE <<1>> \o Enc(Tag(ty, ""), v))
    ELSE IF ty.g = "variant" THEN
        LET st == IF ty.t = "ptr" THEN ty.e[1] ELSE ty
        IN  <<v.b[1]>> \o Enc(st.e[v.b[1] + 1], v.e[1])
    ELSE IF IsAbsentExt(ty, v) THEN <<>>
    ELSE CASE ty.t \in UKinds -> LEU(v.b, UWidth[ty.t])
      [] ty.t \in SKinds -> LES(v, SWidth[ty.t])
      [] ty.t = "bool" -> IF v.b = <<>> THEN <<0>> ELSE <<1>>
      [] ty.t = "vu" -> VarMag(v.b)
      [] ty.t = "vi" -> VarMag(ZigZag(v))
      [] ty.t \in LenKinds -> VarU(Len(v.b)) \o v.b
      [] ty.t \in RawKinds \cup {"rawb"} -> v.b      \* rawb: n bytes as they are
      [] ty.t \in KeyKinds -> v.b
      [] ty.t \in DOMAIN BEKinds -> Reverse(LEU(v.b, BEKinds[ty.t]))
      [] ty.t \in {"ptr", "any"} -> Enc(ty.e[1], v)      \* any: an interface holding a value of the type
      [] ty.t = "slice" -> VarU(Len(v.e)) \o EncAll(ty.e[1], v.e)
      [] ty.t = "array" -> EncAll(ty.e[1], v.e)
      [] ty.t = "map" -> LET ps == Sorted(ty.e[1], v.e)
                         IN  VarU(Len(ps)) \o
                             FlattenSeq([i \in 1..Len(ps) |-> Enc(ty.e[1], ps[i].e[1]) \o Enc(ty.e[2], ps[i].e[2])])
      [] ty.t = "struct" -> FlattenSeq([i \in 1..Len(v.e) |-> Enc(ty.e[i], v.e[i])])
      [] OTHER -> Enc(Expand(ty), v)

(***************************************************************************)
(* Decoding b from position i on.  The result [s, v, i, amb]:              *)
(*   s = "ok"   a value v, i the position after it                         *)
(*   s = "end"  the input ended first          s = "bad"  malformed        *)
(*   amb        the format leaves open whether this input is refused       *)
(*              (padded varuints, bool bytes other than 0 and 1): an error *)
(*              is also a correct outcome.                                 *)
(* en is how the input ends: "eof" or "err" (the reader fails there).      *)
(***************************************************************************)
R(s, v, i, amb) == [s |-> s, v |-> v, i |-> i, amb |-> amb]
Ok(v, i) == R("ok", v, i, FALSE)
Fail(s, amb) == R(s, Nil, 0, amb)

RECURSIVE VarLen(_, _, _)
VarLen(b, i, k) ==      \* number of bytes of the varuint at i, -1 if it runs out, at most 11
    IF i > Len(b) THEN 0 - 1
    ELSE IF b[i] < 128 \/ k >= 11 THEN k ELSE VarLen(b, i + 1, k + 1)

\* magnitude of the base-128 digits b[i..i+k-1], least significant first
VarVal(b, i, k) ==
    IF k <= 3 THEN IntToMag(FoldLeft(LAMBDA a, d : a * 128 + (d % 128), 0, Reverse(SubSeq(b, i, i + k - 1))))
    ELSE BaseConv(Reverse([j \in 1..k |-> b[i + j - 1] % 128]), 128, 256)

DecVarU(b, i) ==
    LET k == VarLen(b, i, 1)
    IN  IF k = 0 - 1 THEN (IF Len(b) - i + 1 >= 5 THEN Fail("bad", TRUE) ELSE Fail("end", FALSE))
        ELSE IF k > 10 THEN Fail("bad", FALSE)
        ELSE LET m == VarVal(b, i, k)
             IN  IF ~MagLess(m, Pow2(32)) THEN Fail("bad", FALSE)
                 ELSE R("ok", Nat0(m), i + k, k > 5)

DecFixed(b, i, n) == IF i + n - 1 > Len(b) THEN Fail("end", FALSE)
                     ELSE Ok(Node("s", SubSeq(b, i, i + n - 1), <<>>), i + n)

DecLen(b, i) ==     \* length-prefixed bytes
    LET l == DecVarU(b, i)
    IN  IF l.s # "ok" THEN l
        ELSE LET n == MagClamp(l.v.b, Len(b) + 1)
                 d == DecFixed(b, l.i, n)
             IN  [d EXCEPT !.amb = l.amb]

MapR(r, f(_)) == IF r.s = "ok" THEN [r EXCEPT !.v = f(r.v)] ELSE r

\* least number of bytes a value occupies; a count of elements that occupy none is not limited by the input
RECURSIVE MinSize(_)
MinSize(ty) ==
    IF ty.g \in {"optional", "variant"} THEN 1
    ELSE IF ty.g = "extension" THEN 0
    ELSE CASE ty.t = "array" -> ty.n * MinSize(ty.e[1])
           [] ty.t = "ptr" -> MinSize(ty.e[1])
           [] ty.t = "struct" -> FoldLeft(LAMBDA a, f : a + MinSize(f), 0, ty.e)
           [] ty.t = "rawb" -> ty.n
           [] OTHER -> 1
Count(m, tys, b) == IF \A i \in 1..Len(tys) : MinSize(tys[i]) = 0 THEN MagClamp(m, 100000) ELSE MagClamp(m, Len(b) + 1)

RECURSIVE Dec(_, _, _, _), DecMany(_, _, _, _, _, _, _), DecPairs(_, _, _, _, _, _, _, _), DecFields(_, _, _, _, _, _)

DecKey(ty, b, i) ==
    IF i > Len(b) THEN Fail("end", FALSE)
    ELSE LET kt == b[i]
             fixed == IF ty.t = "sig" THEN 65 ELSE IF kt = 2 THEN 34 ELSE 33
             Tails(r) ==   \* one length-prefixed tail appended in canonical form
                LET l == DecLen(b, r.i)
                IN  IF l.s # "ok" THEN [l EXCEPT !.amb = l.amb \/ r.amb]
                    ELSE R("ok", Node("key", r.v.b \o VarU(Len(l.v.b)) \o l.v.b, <<>>), l.i, r.amb \/ l.amb)
             head == MapR(DecFixed(b, i + 1, fixed), LAMBDA v : Node("key", <<kt>> \o v.b, <<>>))
         IN  IF kt > 2 THEN Fail("bad", FALSE)
             ELSE IF head.s # "ok" \/ kt < 2 THEN head
             ELSE IF ty.t = "pubkey" THEN Tails(head)
             ELSE LET t1 == Tails(head) IN IF t1.s # "ok" THEN t1 ELSE Tails(t1)

Dec(ty, b, i, en) ==
    IF ty.g = "optional" THEN
        (IF i > Len(b) THEN Fail("end", FALSE)
         ELSE IF b[i] = 0 THEN Ok(Zero(Tag(ty, "")), i + 1)
         ELSE LET r == Dec(Tag(ty, ""), b, i + 1, en) IN [r EXCEPT !.amb = r.amb \/ b[i] > 1])
    ELSE IF ty.g = "variant" THEN
        LET st == IF ty.t = "ptr" THEN ty.e[1] ELSE ty
        IN  IF i > Len(b) THEN Fail("end", FALSE)
            ELSE IF b[i] >= Len(st.e) THEN Fail("bad", FALSE)
            ELSE MapR(Dec(st.e[b[i] + 1], b, i + 1, en), LAMBDA v : Node("v", <<b[i]>>, <<v>>))
    ELSE IF ty.g = "extension" THEN
        (IF i > Len(b) /\ en = "eof" THEN Ok(Zero(Tag(ty, "")), i)
         ELSE Dec(Tag(ty, ""), b, i, en))
    ELSE CASE ty.t \in UKinds -> MapR(DecFixed(b, i, UWidth[ty.t]), LAMBDA v : FromLEU(v.b))
      [] ty.t \in SKinds -> MapR(DecFixed(b, i, SWidth[ty.t]), LAMBDA v : FromLES(v.b))
      [] ty.t = "bool" -> IF i > Len(b) THEN Fail("end", FALSE)
                          ELSE R("ok", Nat0(IF b[i] = 0 THEN <<>> ELSE <<1>>), i + 1, b[i] > 1)
      [] ty.t = "vu" -> DecVarU(b, i)
      [] ty.t = "vi" -> MapR(DecVarU(b, i), LAMBDA v : UnZigZag(v.b))
      [] ty.t \in LenKinds -> DecLen(b, i)
      [] ty.t \in RawKinds -> DecFixed(b, i, RawSize[ty.t])
      [] ty.t = "rawb" -> DecFixed(b, i, ty.n)
      [] ty.t \in KeyKinds -> DecKey(ty, b, i)
      [] ty.t \in DOMAIN BEKinds -> MapR(DecFixed(b, i, BEKinds[ty.t]), LAMBDA v : FromLEU(Reverse(v.b)))
      [] ty.t = "ptr" -> Dec(ty.e[1], b, i, en)
      [] ty.t = "any" -> Fail("bad", FALSE)      \* of no particular type
      [] ty.t = "slice" -> LET l == DecVarU(b, i)
                           IN  IF l.s # "ok" THEN l
                               ELSE DecMany(ty.e[1], b, l.i, en, Count(l.v.b, ty.e, b), <<>>, l.amb)
      [] ty.t = "array" -> DecMany(ty.e[1], b, i, en, ty.n, <<>>, FALSE)
      [] ty.t = "map" -> LET l == DecVarU(b, i)
                         IN  IF l.s # "ok" THEN l
                             ELSE DecPairs(ty.e[1], ty.e[2], b, l.i, en, Count(l.v.b, ty.e, b), <<>>, l.amb)
      [] ty.t = "struct" -> DecFields(ty.e, b, i, en, <<>>, FALSE)
      [] OTHER -> Dec(Expand(ty), b, i, en)

DecMany(ty, b, i, en, n, acc, amb) ==
    IF n = 0 THEN R("ok", Seqv(acc), i, amb)
    ELSE LET r == Dec(ty, b, i, en)
         IN  IF r.s # "ok" THEN [r EXCEPT !.amb = r.amb \/ amb]
             ELSE DecMany(ty, b, r.i, en, n - 1, Append(acc, r.v), amb \/ r.amb)

DecPairs(kt, vt, b, i, en, n, acc, amb) ==
    IF n = 0 THEN R("ok", Seqv(acc), i, amb)
    ELSE LET r == Dec(kt, b, i, en)
         IN  IF r.s # "ok" THEN [r EXCEPT !.amb = r.amb \/ amb]
             ELSE LET q == Dec(vt, b, r.i, en)
                      \* a repeated key replaces the earlier entry
                      rest == SelectSeq(acc, LAMBDA p : p.e[1] # r.v)
                  IN  IF q.s # "ok" THEN [q EXCEPT !.amb = q.amb \/ r.amb \/ amb]
                      ELSE DecPairs(kt, vt, b, q.i, en, n - 1, Append(rest, Seqv(<<r.v, q.v>>)), amb \/ r.amb \/ q.amb)

DecFields(fs, b, i, en, acc, amb) ==
    IF Len(acc) = Len(fs) THEN R("ok", Seqv(acc), i, amb)
    ELSE LET r == Dec(fs[Len(acc) + 1], b, i, en)
         IN  IF r.s # "ok" THEN [r EXCEPT !.amb = r.amb \/ amb]
             ELSE DecFields(fs, b, r.i, en, Append(acc, r.v), amb \/ r.amb)

\* some field of the type is an extension
RECURSIVE HasExt(_)
HasExt(ty) == \/ ty.g = "extension" \/ ty.t = "abi"
              \/ \E i \in 1..Len(ty.e) : HasExt(ty.e[i])
=============================================================================
