------------------------------ MODULE MC_Kinds ------------------------------
(***************************************************************************)
(* Every kind of value at all of its boundaries: a number kind at each     *)
(* power of two and its neighbours, byte strings around each length at     *)
(* which their prefix changes, chain objects with every combination of     *)
(* extreme fields; and every short byte string read as a varint or as a    *)
(* length.  Each is written, read back and written again.  Also the JSON   *)
(* form of each, alone and inside other values, and digests.               *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Group, More

Str(b) == Node("s", b, <<>>)
Neg(v) == IF v.b = <<>> THEN v ELSE Node("m", v.b, <<>>)
Dec1(b) == StripZ(Reverse(DecrLE(Reverse(b))))
\* 2^k - 1, 2^k, 2^k + 1 and their negatives
Around(k) == {Nat0(Dec1(Pow2(k))), Nat0(Pow2(k)), Nat0(AddSmall(Pow2(k), 1))}
Mags == UNION {Around(k) : k \in 0..(IF More THEN 128 ELSE 64)}
Wide == UNION {Around(k) : k \in {0, 7, 8, 31, 32, 63, 64, 95, 96, 126, 127, 128}}
Unsigned(bits) == {v \in Mags : FitsU(v, bits)}
Signed(bits) == {v \in Mags \cup {Neg(x) : x \in Mags} : FitsS(v, bits)}
Fill(n, c) == [i \in 1..n |-> (c * i + n) % 256]
Lens == {0, 1, 2, 127, 128, 129} \cup (IF More THEN {255, 256, 300, 16383, 16384} ELSE {255, 256})

Prims == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "vu", "vi", "bool", "str", "bytes", "nu32", "nu64", "ni32", "ni64"}
Scalars == {"name", "symbol", "symcode", "uint64", "uint128", "int128", "blocknum", "tps", "bts", "tp", "cbytes", "blob", "c160", "c256", "c512", "float128"}
Bits(k) == IF k = "vu" \/ k = "vi" THEN 64 ELSE IF k \in UKinds THEN UWidth[k] * 8 ELSE SWidth[k] * 8
Few == {Nat0(<<>>), Nat0(<<1>>), Nat0(Fill(8, 37))}
Perms == {Seqv(<<x, y>>) : x \in Few, y \in {Nat0(<<>>), Nat0(<<255, 255, 255, 255, 255, 255, 255, 255>>)}}
Auths == {Seqv(<<>>)} \cup {Seqv(<<p>>) : p \in Perms} \cup {Seqv(<<p, Seqv(<<Nat0(<<1>>), Nat0(<<2>>)>>)>>) : p \in Perms}
Datas == {Str(<<>>), Str(<<0>>), Str(Fill(130, 3))}
Acts == {Seqv(<<x, Nat0(<<2, 3>>), a, d>>) : x \in Few, a \in Auths, d \in Datas}
Act1 == Seqv(<<Nat0(<<5>>), Nat0(<<6>>), Seqv(<<Seqv(<<Nat0(<<1>>), Nat0(<<2>>)>>)>>), Str(<<1, 2, 3>>)>>)
Act0 == Seqv(<<Nat0(<<>>), Nat0(<<>>), Seqv(<<>>), Str(<<>>)>>)
U32s == {Nat0(<<>>), Nat0(<<255, 255, 255, 255>>)}
Hdrs == {Seqv(<<a, b, c, d, e, f>>) : a \in U32s, b \in {Nat0(<<1, 2>>), Nat0(<<255, 255>>)}, c \in U32s, d \in U32s, e \in {Nat0(<<>>), Nat0(<<255>>)}, f \in {Nat0(<<127>>), Nat0(<<128>>)}}
Hdr1 == Seqv(<<Nat0(<<1, 2, 3, 4>>), Nat0(<<5, 6>>), Nat0(<<7, 8, 9, 10>>), Nat0(<<200>>), Nat0(<<11>>), Nat0(<<1, 44>>)>>)
ActLists == {Seqv(<<>>), Seqv(<<Act1>>), Seqv(<<Act0>>), Seqv(<<Act1, Act0>>)}
ExtV(n) == Seqv(<<Nat0(IF n = 0 THEN <<>> ELSE <<1, n>>), Str(Fill(n, 9))>>)
ExtLists == {Seqv(<<>>), Seqv(<<ExtV(0)>>), Seqv(<<ExtV(2), ExtV(0)>>)}
Rp(n) == VarU(n) \o Fill(n, 7)
Keys(k) == LET n == IF k = "sig" THEN 65 ELSE 33
               N1 == {0, 1, 127, 128, 130}
           IN  {Node("key", <<t>> \o Fill(n, c), <<>>) : t \in {0, 1}, c \in {0, 1, 91}}
               \cup (IF k = "sig" THEN {Node("key", <<2>> \o Fill(65, 5) \o Rp(a) \o Rp(b), <<>>) : a \in N1, b \in N1}
                     ELSE {Node("key", <<2>> \o Fill(33, 5) \o <<x>> \o Rp(a), <<>>) : a \in N1, x \in {0, 2}})
Assets == {Seqv(<<x, s>>) : x \in {v \in Wide \cup {Neg(y) : y \in Wide} : FitsS(v, 64)}, s \in {Nat0(<<4>>), Nat0(<<83, 79, 69, 4>>), Nat0(Fill(8, 1))}}

VarStarts == {<<>>, <<128, 128, 128>>, <<255, 255, 255>>, <<128, 128, 128, 128, 128>>}
VarBytes == {0, 1, 7, 8, 15, 16, 127, 128, 255}
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE LET S == Strings(n - 1) IN S \cup {Append(x, c) : x \in {y \in S : Len(y) = n - 1}, c \in VarBytes}

Vals(k) == CASE k \in {"bool"} -> {Nat0(<<>>), Nat0(<<1>>)}
             [] k \in LenKinds -> {Str(Fill(n, c)) : n \in Lens, c \in {0, 37}}
             [] k \in RawKinds -> {Str(Fill(RawSize[k], c)) : c \in {0, 1, 37, 254}}
             [] k = "vi" -> Signed(64) [] k = "vu" -> Unsigned(64)
             [] k \in {"uint128", "int128"} -> {v \in Wide \cup {Neg(y) : y \in Wide} : IF k = "uint128" THEN FitsU(v, 128) ELSE FitsS(v, 128)}
             [] k \in UKinds -> Unsigned(Bits(k))
             [] k \in SKinds -> Signed(Bits(k))
             [] k = "perm" -> Perms [] k = "action" -> Acts [] k = "txhdr" -> Hdrs
             [] k = "txext" -> {ExtV(n) : n \in {0, 1, 127, 128}}
             [] k = "tx" -> {Seqv(<<Hdr1, a, b, c>>) : a \in ActLists, b \in ActLists, c \in ExtLists}
             [] k = "asset" -> Assets [] k = "extasset" -> {Seqv(<<a, n>>) : a \in Assets, n \in Few}
             [] k \in KeyKinds -> Keys(k)
Kinds == IF Group = "prim" THEN Prims ELSE Scalars \cup {"perm", "action", "txhdr", "txext", "tx", "asset", "extasset", "pubkey", "sig"}

PathNo(n) == CASE n % 3 = 0 -> "chain" [] n % 3 = 1 -> "plain" [] OTHER -> "decl"
MCInit == MInit /\ sc = <<>> /\ ph = "pick" /\ ch = [t |-> Ty("u8"), v |-> Nil, p |-> "chain"]
Pick == /\ ph = "pick" /\ Group \in {"prim", "chain"} /\ \E k \in Kinds : \E v \in Vals(k) : ch' = [t |-> Ty(k), v |-> v, p |-> PathNo(Len(v.b) + Len(v.e))]
        /\ ph' = "enc" /\ UNCHANGED <<mvars, sc>>
To(p) == ph' = p /\ UNCHANGED ch
ByNo == IF Group = "prim" THEN "method" ELSE "marsh"
Enc1 == ph = "enc" /\ Call(EEnc(ch.t, ch.v, ch.p, "val"), PEnc(ch.t, ch.v)) /\ To("enc2")
Enc2 == ph = "enc2" /\ Call(EEnc(ch.t, ch.v, "chain", IF Group = "prim" THEN "method" ELSE "ptr"), PEnc(ch.t, ch.v)) /\ To("open")
Open == ph = "open" /\ Call(EOpen("eof", <<>>, 0), POpen(w, 1, Len(w))) /\ To("dec")
Dec_1 == ph = "dec" /\ Call(EDec(ch.t, 1, ch.p), PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("dec2")
Dec_2 == ph = "dec2" /\ Call([EDec(ch.t, 2, "plain") EXCEPT !.by = IF Group = "prim" THEN "method" ELSE "ptr"], PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("look")
Look == ph = "look" /\ Call(ELook(ch.t, 1), [out |-> "ok", v |-> IF sl[1].st = "val" THEN sl[1].v ELSE Zero(ch.t)]) /\ To("end")

\* varints and lengths from raw bytes; keys of unknown types
Raw == /\ ph = "pick"
       /\ \/ /\ Group = "prim"
             /\ \E k \in {"vu", "vi", "str", "bytes"}, s \in VarStarts, x \in Strings(IF More THEN 3 ELSE 2) : ch' = [t |-> Ty(k), v |-> Str(s \o x), p |-> PathNo(Len(x))]
          \/ /\ Group = "chain"
             /\ \E k \in {"pubkey", "sig"}, kt \in {0, 1, 2, 3, 4, 127, 128, 130, 255}, n \in {0, 1, 32, 33, 34, 35, 64, 65, 66, 67, 80} : ch' = [t |-> Ty(k), v |-> Str(<<kt>> \o Zeros(n)), p |-> PathNo(n)]
       /\ ph' = "raw" /\ UNCHANGED <<mvars, sc>>
Raw1 == ph = "raw" /\ Call(ELit(ch.v.b, "eof"), PLit(ch.v.b)) /\ To("raw2")
Raw2 == ph = "raw2" /\ Call([EDec(ch.t, 1, ch.p) EXCEPT !.by = IF Group = "prim" /\ ch.p = "plain" THEN "method" ELSE "ptr"], PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("raw3")
Raw3 == ph = "raw3" /\ Call(EDec(ch.t, 2, ch.p), PDec(ch.t, rd.d, rd.p, rd.en)) /\ To("end")

\* JSON: every kind with a specified form, alone and inside others
Sym(p, l) == Nat0(StripZ(Reverse(<<p>> \o l)))
Syms == {Sym(p, l) : p \in {0, 4, 18}, l \in {<<65>>, <<69, 79, 83>>, <<90, 90, 90, 90, 90, 90, 90>>}}
Thousands == {Num1(v.k, MulSmall(v.b, 1000)) : v \in {x \in Mags \cup {Neg(y) : y \in Mags} : MagLess(x.b, Pow2(40))}}
JVals(k) == CASE k = "symbol" -> Syms
              [] k = "symcode" -> {Sym(l[1], Tail(l)) : l \in {<<65>>, <<69, 79, 83>>, <<90, 90, 90, 90, 90, 90, 90>>}}
              [] k = "asset" -> {Seqv(<<x, y>>) : x \in {v \in Wide \cup {Neg(z) : z \in Wide} : FitsS(v, 64)}, y \in Syms}
              [] k = "extasset" -> {Seqv(<<Seqv(<<x, y>>), z>>) : x \in {Nat0(<<>>), Node("m", <<1, 2>>, <<>>)}, y \in Syms, z \in Few}
              [] k = "tp" -> Thousands
              [] OTHER -> Vals(k)
Contexts(ty) == {ty, Ptr(ty), Slice(ty), Struct(<<ty, Ty("bool")>>), MapT(Ty("str"), ty), Struct(<<Ptr(ty)>>), Arr(1, ty)}
Inside(ty, v) == CASE ty.t = "slice" -> Seqv(<<v, v>>)
                   [] ty.t = "array" -> Seqv(<<v>>)
                   [] ty.t = "map" -> Seqv(<<Seqv(<<Str(<<107>>), v>>)>>)
                   [] ty.t = "struct" -> Seqv(IF Len(ty.e) = 2 THEN <<v, Nat0(<<1>>)>> ELSE <<v>>)
                   [] OTHER -> v
Json0 == /\ ph = "pick" /\ Group = "json"
        /\ \E k \in (Scalars \cup {"perm", "action", "txhdr", "txext", "tx", "asset", "extasset", "pubkey", "sig"}) :
             \/ \E v \in JVals(k) : ch' = [t |-> Ty(k), v |-> v, p |-> ""]
             \/ LET v == CHOOSE v \in JVals(k) : TRUE IN \E ty \in Contexts(Ty(k)) : ch' = [t |-> ty, v |-> Inside(ty, v), p |-> ""]
        /\ ph' = "json" /\ UNCHANGED <<mvars, sc>>
Json1 == /\ ph = "json"
         /\ Call([op |-> "json", t |-> ch.t, v |-> ch.v, n |-> 7 + Len(ch.v.b)], [out |-> "ok", js |-> <<JOf(ch.t, ch.v)>>, back |-> <<[out |-> "ok", v |-> ch.v]>>, va |-> ch.v])
         /\ To("end")

\* digests of every length around the block sizes, and of every action
Hash0s == {"160", "256", "512"}
Digest0 == /\ ph = "pick" /\ Group = "digest"
           /\ \/ \E f \in Hash0s, n \in (0..(IF More THEN 260 ELSE 130)) : ch' = [t |-> Ty("bytes"), v |-> Str(Fill(n, IF n % 2 = 0 THEN 37 ELSE 0)), p |-> f]
              \/ \E v \in Acts : ch' = [t |-> Ty("action"), v |-> v, p |-> "action"]
           /\ ph' = "digest" /\ UNCHANGED <<mvars, sc>>
Digest1 == /\ ph = "digest"
           /\ IF ch.p = "action" THEN Call([op |-> "adigest", t |-> Ty("action"), v |-> ch.v], [out |-> "ok", b |-> Sha256(Enc(Ty("action"), ch.v)), va |-> ch.v])
              ELSE Call([op |-> "digest", form |-> ch.p, d |-> ch.v.b],
                        [out |-> "ok", in |-> ch.v.b, b |-> CASE ch.p = "160" -> Ripemd160(ch.v.b) [] ch.p = "256" -> Sha256(ch.v.b) [] OTHER -> Sha512(ch.v.b)])
           /\ To("end")

Finish == ph = "end" /\ Emit(sc) /\ ph' = "done" /\ UNCHANGED <<mvars, sc, ch>>
Done == ph = "done" /\ UNCHANGED MCvars
MCNext == Pick \/ Enc1 \/ Enc2 \/ Open \/ Dec_1 \/ Dec_2 \/ Look \/ Raw \/ Raw1 \/ Raw2 \/ Raw3 \/ Json0 \/ Json1 \/ Digest0 \/ Digest1 \/ Finish \/ Done

\* --- what must hold of the specification itself
Good == EncOk(ch.t, ch.v)
Returns == (ph = "end" /\ Len(sc) = 6 /\ Good) => /\ sl[1] = [st |-> "val", v |-> ch.v] /\ sl[2] = sl[1] /\ rd.p = Len(rd.d) + 1
Refused == (ph = "end" /\ Len(sc) = 6 /\ ~Good) => w = <<>> /\ ch.t.t \in {"vu", "vi"}
\* fixed layouts have fixed sizes
Sized == (ph = "enc2" /\ ch.t.t \in UKinds \cup SKinds) => Len(w) = Bits(ch.t.t) \div 8
\* varints are minimal: the last byte is not a padding zero, five bytes at most, the value comes back
Minimal == (ph = "enc2" /\ ch.t.t \in {"vu", "vi"} /\ Good) => Len(w) <= 5 /\ (Len(w) > 1 => w[Len(w)] # 0) /\ \A i \in 1..(Len(w) - 1) : w[i] >= 128
\* what is read from raw bytes is read again from what it is written as
Normal == (ph = "raw3" /\ sl[1].st = "val") => LET b == Enc(ch.t, sl[1].v) IN EncOk(ch.t, sl[1].v) /\ Dec(ch.t, b, 1, "eof").v = sl[1].v /\ Len(b) <= rd.p - 1
=============================================================================
