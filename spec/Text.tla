-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text forms of the chain types.  Texts are sequences of character codes. *)
(* TextOf(t, v) = [def, s]: def says whether the text is specified for this *)
(* value; if not, printing only has to return.                             *)
(* Parse(t, s) = [err, vs]: err says whether refusing the text is allowed, *)
(* vs the set of values that may be returned (empty: it must be refused).  *)
(* Forms the format documents leave open (a leading plus sign, leading     *)
(* zeros, upper-case hex, ...) allow both.                                 *)
(***************************************************************************)
EXTENDS Digest, Wire

Zero0 == 48
IsDigit(c) == c \in 48..57
IsUp(c) == c \in 65..90
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
Digits(m) == LET d == MagToDec(m) IN [i \in 1..Len(d) |-> 48 + d[i]]
DigitsMag(s) == DecToMag([i \in 1..Len(s) |-> s[i] - 48])
DigitsInt(s) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, s)      \* short ones only
PadTo(s, n) == [i \in 1..(IF Len(s) < n THEN n - Len(s) ELSE 0) |-> 48] \o s
Dec2(n) == <<48 + ((n \div 10) % 10), 48 + (n % 10)>>
Dec3(n) == <<48 + ((n \div 100) % 10)>> \o Dec2(n % 100)
Dec4(n) == Dec2(n \div 100) \o Dec2(n % 100)
IndexOf(s, c) == SelectInSeq(s, LAMBDA x : x = c)
Num1(k, m) == IF m = <<>> THEN Nat0(<<>>) ELSE Node(k, m, <<>>)

Exactly(v) == [err |-> FALSE, vs |-> {v}]
Either(v) == [err |-> TRUE, vs |-> {v}]
Refuse == [err |-> TRUE, vs |-> {}]

---------------------------------------------------------------------------
\* decimal integers
PrintInt(v) == (IF v.k = "m" THEN <<45>> ELSE <<>>) \o Digits(v.b)

\* [ok, canon, v]: s is a decimal integer, in its canonical form
ParseDec(s) ==
    LET neg == Len(s) > 0 /\ s[1] = 45
        sgn == Len(s) > 0 /\ s[1] \in {43, 45}
        d == IF sgn THEN Tail(s) ELSE s
        m == DigitsMag(d)
    IN  IF d = <<>> \/ ~AllDigits(d) THEN [ok |-> FALSE, canon |-> FALSE, v |-> Nil]
        ELSE [ok |-> TRUE, v |-> Num1(IF neg THEN "m" ELSE "n", m),
              canon |-> /\ ~(sgn /\ ~neg) /\ (Len(d) = 1 \/ d[1] # 48) /\ ~(neg /\ m = <<>>)]

ParseRange(s, Fits(_)) ==
    LET p == ParseDec(s)
    IN  IF ~p.ok THEN Refuse
        ELSE IF ~Fits(p.v) THEN Refuse
        ELSE IF p.canon THEN Exactly(p.v) ELSE Either(p.v)

---------------------------------------------------------------------------
\* names
NameAlphabet == <<46, 49, 50, 51, 52, 53>> \o [i \in 1..26 |-> 96 + i]
SymOf(c) == IF c \in 97..122 THEN c - 97 + 6 ELSE IF c \in 49..53 THEN c - 48 ELSE 0
BitsOf(x, n) == [i \in 1..n |-> (x \div (2 ^ (n - i))) % 2]
FromBits(bs) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, bs)
TrimDots(s) == LET n == Len(s)
                   RECURSIVE Keep(_)
                   Keep(i) == IF i = 0 THEN 0 ELSE IF s[i] # 46 THEN i ELSE Keep(i - 1)
               IN  SubSeq(s, 1, Keep(n))
PrintName(v) ==
    LET by == Zeros(8 - Len(v.b)) \o v.b
        bits == FlattenSeq([i \in 1..8 |-> BitsOf(by[i], 8)])
    IN  TrimDots([i \in 1..13 |-> NameAlphabet[1 + FromBits(SubSeq(bits, 5 * i - 4, IF i = 13 THEN 64 ELSE 5 * i))]])
NameValue(s) ==
    LET sym(i) == IF i > Len(s) THEN 0 ELSE SymOf(s[i])
        bits == FlattenSeq([i \in 1..13 |-> IF i < 13 THEN BitsOf(sym(i), 5) ELSE BitsOf(sym(i) % 16, 4)])
    IN  Nat0(StripZ([j \in 1..8 |-> FromBits(SubSeq(bits, 8 * j - 7, 8 * j))]))
\* non-ASCII text and a 13th character of k-z are not specified
NameDefined(s) == /\ \A i \in 1..Len(s) : s[i] < 128
                  /\ Len(s) >= 13 => SymOf(s[13]) < 16

---------------------------------------------------------------------------
\* symbols and assets; a symbol is a number, its low byte the precision
SymBytes(v) == LEU(v.b, 8)
SymDecimals(v) == SymBytes(v)[1]
SymName(v) == LET b == Tail(SymBytes(v)) IN SelectSeq(b, LAMBDA c : c # 0)
\* name of 0-7 upper-case letters without holes
SymNameOk(v) == LET b == Tail(SymBytes(v))
                    n == Len(SymName(v))
                IN  \A i \in 1..7 : IF i <= n THEN IsUp(b[i]) ELSE b[i] = 0
MkSym(prec, name) == Nat0(StripZ(Reverse(<<prec>> \o name \o Zeros(7 - Len(name)))))
LettersOk(s) == Len(s) <= 7 /\ \A i \in 1..Len(s) : IsUp(s[i])

PrintSym(v) == Digits(IntToMag(SymDecimals(v))) \o <<44>> \o SymName(v)
PrintAmount(v, d) ==
    LET ds == PadTo(Digits(v.b), d + 1)
        n == Len(ds)
    IN  (IF v.k = "m" THEN <<45>> ELSE <<>>) \o
        (IF d = 0 THEN ds ELSE SubSeq(ds, 1, n - d) \o <<46>> \o SubSeq(ds, n - d + 1, n))
PrintAsset(v) == PrintAmount(v.e[1], SymDecimals(v.e[2])) \o <<32>> \o SymName(v.e[2])

ParseSym(s) ==
    LET c == IndexOf(s, 44)
        p == SubSeq(s, 1, c - 1)
        n == SubSeq(s, c + 1, Len(s))
        d == ParseDec(p)
    IN  IF c = 0 \/ ~d.ok \/ ~LettersOk(n) THEN Refuse
        ELSE IF d.v.k = "m" \/ ~MagLess(d.v.b, <<19>>) THEN Refuse
        ELSE LET v == MkSym(MagToInt(d.v.b), n)
             IN  IF d.canon /\ n # <<>> THEN Exactly(v) ELSE Either(v)
ParseSymCode(s) ==
    IF ~LettersOk(s) THEN Refuse
    ELSE LET v == Nat0(StripZ(Reverse(s))) IN IF s = <<>> THEN Either(v) ELSE Exactly(v)

ParseAsset(s) ==
    LET sp == IndexOf(s, 32)
        a == SubSeq(s, 1, sp - 1)
        n == SubSeq(s, sp + 1, Len(s))
        dot == IndexOf(a, 46)
        frac == IF dot = 0 THEN <<>> ELSE SubSeq(a, dot + 1, Len(a))
        whole == IF dot = 0 THEN a ELSE SubSeq(a, 1, dot - 1)
        neg == Len(whole) > 0 /\ whole[1] = 45
        sgn == Len(whole) > 0 /\ whole[1] \in {43, 45}
        wd == IF sgn THEN Tail(whole) ELSE whole
        m == DigitsMag(wd \o frac)
        v == Num1(IF neg THEN "m" ELSE "n", m)
    IN  IF sp = 0 \/ n = <<>> \/ ~LettersOk(n) THEN Refuse
        ELSE IF ~AllDigits(wd) \/ ~AllDigits(frac) \/ (wd \o frac) = <<>> \/ Len(frac) > 18 THEN Refuse
        ELSE IF ~FitsS(v, 64) THEN Refuse
        ELSE LET x == Seqv(<<v, MkSym(Len(frac), n)>>)
             IN  IF /\ wd # <<>> /\ ~(dot # 0 /\ frac = <<>>) /\ ~(sgn /\ ~neg)
                    /\ (Len(wd) = 1 \/ wd[1] # 48) /\ ~(neg /\ m = <<>>)
                 THEN Exactly(x) ELSE Either(x)

---------------------------------------------------------------------------
\* calendar, proleptic Gregorian; days are counted from 0001-01-01
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>[m]
DaysBefore(y) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400
DayNo(y, m, d) == DaysBefore(y) + FoldLeft(LAMBDA a, k : a + MonthLen(y, k), 0, [k \in 1..(m - 1) |-> k]) + d - 1
YearOf(day) == LET g == day \div 366 + 1       \* never above the year, at most a few below
                   RECURSIVE Up(_)
                   Up(y) == IF DaysBefore(y + 1) <= day THEN Up(y + 1) ELSE y
                   e == (day * 4) \div 1461    \* close estimate, adjusted both ways
                   RECURSIVE Down(_)
                   Down(y) == IF y > 1 /\ DaysBefore(y) > day THEN Down(y - 1) ELSE y
               IN  Up(Down(e + 1))
RECURSIVE MonthDay(_, _, _)
MonthDay(y, m, d) == IF d < MonthLen(y, m) THEN <<m, d + 1>> ELSE MonthDay(y, m + 1, d - MonthLen(y, m))

EpochDay == 719162       \* 1970-01-01
MaxDay == 3652058        \* 9999-12-31

\* floor division of a number by a small positive d: [q (number), r]
FloorDiv(v, d) ==
    LET x == DivSmall(v.b, d)
    IN  IF v.k = "n" THEN [q |-> Nat0(x.q), r |-> x.r]
        ELSE IF x.r = 0 THEN [q |-> Num1("m", x.q), r |-> 0]
        ELSE [q |-> Num1("m", AddSmall(x.q, 1)), r |-> d - x.r]
SmallInt(v) == IF v.k = "n" THEN MagToInt(v.b) ELSE 0 - MagToInt(v.b)

PrintDayTime(day, sec) ==
    LET y == YearOf(day)
        md == MonthDay(y, 1, day - DaysBefore(y))
    IN  Dec4(y) \o <<45>> \o Dec2(md[1]) \o <<45>> \o Dec2(md[2]) \o <<84>> \o
        Dec2(sec \div 3600) \o <<58>> \o Dec2((sec \div 60) % 60) \o <<58>> \o Dec2(sec % 60)

NoText == [def |-> FALSE, s |-> <<>>]
TextIs(s) == [def |-> TRUE, s |-> s]

\* text of a time given in seconds since 1970 (a number), with the milliseconds ms or without (-1)
PrintTime(secs, ms) ==
    LET d == FloorDiv(secs, 86400)
    IN  IF Len(d.q.b) > 3 THEN NoText
        ELSE LET day == SmallInt(d.q) + EpochDay
             IN  IF day < 0 \/ day > MaxDay THEN NoText
                 ELSE TextIs(PrintDayTime(day, d.r) \o (IF ms < 0 THEN <<>> ELSE <<46>> \o Dec3(ms)))

BtsEpoch == 946684800    \* seconds
PrintTimeOf(t, v) ==
    CASE t = "tps" -> PrintTime(v, 0 - 1)
      [] t = "tp" -> LET ms == FloorDiv(v, 1000)
                         s == FloorDiv(ms.q, 1000)
                     IN  PrintTime(s.q, s.r)
      [] t = "bts" -> LET h == DivSmall(v.b, 2)
                          s == StripZ(Reverse(MulAddLE(Reverse(h.q), 1, 0, 256)))
                      IN  PrintTime(Nat0(AddSmall(AddSmall(s, BtsEpoch \div 2), BtsEpoch \div 2)), h.r * 500)

\* a - b on magnitudes, as a number
SubMag(a, b) ==
    LET Minus(x, y) ==      \* x >= y
            LET n == Len(x)
                xs == Reverse(x)
                ys == LEU(y, n)
                r == FoldLeft(LAMBDA acc, i : LET c == xs[i] - ys[i] - acc.c
                                              IN  IF c < 0 THEN [o |-> Append(acc.o, c + 256), c |-> 1]
                                                  ELSE [o |-> Append(acc.o, c), c |-> 0],
                              [o |-> <<>>, c |-> 0], [i \in 1..n |-> i])
            IN  StripZ(Reverse(r.o))
    IN  IF MagLess(a, b) THEN Num1("m", Minus(b, a)) ELSE Num1("n", Minus(a, b))

\* strict shape YYYY-MM-DDTHH:MM:SS[.mmm][Z]
Shape(s, frac) ==
    /\ Len(s) = (IF frac THEN 23 ELSE 19)
    /\ \A i \in 1..Len(s) :
         IF i \in {5, 8} THEN s[i] = 45 ELSE IF i = 11 THEN s[i] = 84 ELSE IF i \in {14, 17} THEN s[i] = 58
         ELSE IF i = 20 THEN s[i] = 46 ELSE IsDigit(s[i])
F(s, a, b) == DigitsInt(SubSeq(s, a, b))
RealTime(s) == /\ F(s, 1, 4) >= 1 /\ F(s, 6, 7) \in 1..12 /\ F(s, 9, 10) \in 1..MonthLen(F(s, 1, 4), F(s, 6, 7))
               /\ F(s, 12, 13) < 24 /\ F(s, 15, 16) < 60 /\ F(s, 18, 19) < 60
\* seconds since 0001-01-01
Secs1(s) == LET d == IntToMag(DayNo(F(s, 1, 4), F(s, 6, 7), F(s, 9, 10)))
            IN  AddSmall(MulSmall(d, 86400), F(s, 12, 13) * 3600 + F(s, 15, 16) * 60 + F(s, 18, 19))
EpochSecs == MulSmall(IntToMag(EpochDay), 86400)
EpochMs == MulSmall(EpochSecs, 1000)
BtsMs == MulSmall(AddSmall(AddSmall(EpochSecs, BtsEpoch \div 2), BtsEpoch \div 2), 1000)
Anything == [err |-> TRUE, vs |-> {}, any |-> TRUE]

ParseTimeOf(t, s0) ==
    LET s == IF Len(s0) > 0 /\ s0[Len(s0)] = 90 THEN SubSeq(s0, 1, Len(s0) - 1) ELSE s0
        frac == t # "tps"
        ms1 == AddSmall(MulSmall(Secs1(s), 1000), F(s, 21, 23))
    IN  IF ~Shape(s, frac) THEN
            (IF s = <<>> \/ \E i \in 1..Len(s) : ~(IsDigit(s[i]) \/ s[i] \in {32, 43, 44, 45, 46, 58, 84, 90}) THEN Refuse ELSE Anything)
        ELSE IF F(s, 1, 4) = 0 THEN Anything
        ELSE IF ~RealTime(s) THEN Refuse
        ELSE CASE t = "tps" -> LET v == SubMag(Secs1(s), EpochSecs)
                               IN  IF FitsU(v, 32) THEN Exactly(v) ELSE Refuse
               [] t = "tp" -> LET v == SubMag(ms1, EpochMs)
                              IN  Exactly(Num1(v.k, MulSmall(v.b, 1000)))
               [] t = "bts" -> LET v == SubMag(ms1, BtsMs)
                                   q == FloorDiv(v, 500)
                                   lo == q.q
                                   hi == IF lo.k = "n" THEN Nat0(AddSmall(lo.b, 1)) ELSE SubMag(<<1>>, lo.b)
                               IN  IF q.r = 0 THEN (IF FitsU(lo, 32) THEN Exactly(lo) ELSE Refuse)
                                   ELSE [err |-> TRUE, vs |-> {x \in {lo, hi} : FitsU(x, 32)}]

---------------------------------------------------------------------------
\* hex and base64
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(b) == FlattenSeq([i \in 1..Len(b) |-> <<HexDigit(b[i] \div 16), HexDigit(b[i] % 16)>>])
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 0 - 1
ParseHex(s, n) ==       \* n < 0: any length
    IF Len(s) % 2 = 1 \/ (\E i \in 1..Len(s) : HexVal(s[i]) < 0) \/ (n >= 0 /\ Len(s) # 2 * n) THEN Refuse
    ELSE LET v == Node("s", [i \in 1..(Len(s) \div 2) |-> HexVal(s[2 * i - 1]) * 16 + HexVal(s[2 * i])], <<>>)
         IN  IF \E i \in 1..Len(s) : s[i] \in 65..70 THEN Either(v) ELSE Exactly(v)

B64 == [i \in 1..26 |-> 64 + i] \o [i \in 1..26 |-> 96 + i] \o [i \in 1..10 |-> 47 + i] \o <<43, 47>>
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF IsDigit(c) THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 0 - 1
Base64(b) ==
    LET n == Len(b)
        At(i) == IF i > n THEN 0 ELSE b[i]
        Group(g) == LET i == 3 * g - 2
                        c1 == B64[1 + At(i) \div 4]
                        c2 == B64[1 + (At(i) % 4) * 16 + At(i + 1) \div 16]
                        c3 == IF i + 1 > n THEN 61 ELSE B64[1 + (At(i + 1) % 16) * 4 + At(i + 2) \div 64]
                        c4 == IF i + 2 > n THEN 61 ELSE B64[1 + (At(i + 2) % 64)]
                    IN  <<c1, c2, c3, c4>>
    IN  FlattenSeq([g \in 1..((n + 2) \div 3) |-> Group(g)])
ParseB64(s) ==
    LET p == IndexOf(s, 61)
        body == IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
        padn == Len(s) - Len(body)
        r == Len(body) % 4
        need == IF r = 0 THEN 0 ELSE 4 - r
        vals == [i \in 1..Len(body) |-> B64Val(body[i])]
        V(i) == IF i > Len(body) THEN 0 ELSE vals[i]
        bytes == FlattenSeq([g \in 1..((Len(body) + 3) \div 4) |->
                    LET i == 4 * g - 3
                    IN  <<V(i) * 4 + V(i + 1) \div 16, (V(i + 1) % 16) * 16 + V(i + 2) \div 4, (V(i + 2) % 4) * 64 + V(i + 3)>>])
        n == (Len(body) * 3) \div 4
        loose == \/ (r = 2 /\ V(Len(body)) % 16 # 0) \/ (r = 3 /\ V(Len(body)) % 4 # 0)
        v == Node("s", SubSeq(bytes, 1, n), <<>>)
    IN  IF \E i \in 1..Len(s) : s[i] \in {10, 13} THEN Anything
        ELSE IF (\E i \in 1..Len(s) : B64Val(s[i]) < 0 /\ s[i] # 61) THEN Refuse
        ELSE IF (\E i \in 1..padn : s[Len(body) + i] # 61) \/ r = 1 \/ padn > need THEN Refuse
        ELSE IF loose THEN Either(v) ELSE Exactly(v)

---------------------------------------------------------------------------
\* keys and signatures
KeyTag == <<<<75, 49>>, <<82, 49>>, <<87, 65>>>>      \* K1 R1 WA
KeyPrefix(t) == IF t = "pubkey" THEN <<80, 85, 66, 95>> ELSE <<83, 73, 71, 95>>
PrintKey(t, v) ==
    LET kt == KeyTag[v.b[1] + 1]
        d == Tail(v.b)
    IN  KeyPrefix(t) \o kt \o <<95>> \o CheckEnc(d, CkRmd(d, kt))
\* the key made of type byte kt and data d, if the data is exactly that of such a key
KeyOf(t, kt, d) ==
    LET b == <<kt>> \o d
        r == Dec(Ty(t), b, 1, "eof")
    IN  IF r.s = "ok" /\ r.i = Len(b) + 1 /\ r.v.b = b THEN Exactly(r.v) ELSE Refuse
ParseKey(t, s) ==
    LET tag == SubSeq(s, 5, 6)
        kt == SelectInSeq(KeyTag, LAMBDA x : x = tag)
        c == CheckDec(SubSeq(s, 8, Len(s)), LAMBDA p : CkRmd(p, tag))
    IN  IF Len(s) >= 7 /\ SubSeq(s, 1, 4) = KeyPrefix(t) THEN
            (IF kt = 0 \/ s[7] # 95 \/ ~c.ok THEN Refuse ELSE KeyOf(t, kt - 1, c.b))
        ELSE IF t = "sig" THEN Refuse
        \* legacy: any prefix and the checked form without suffix; compressed keys have 50 characters
        ELSE IF Len(s) < 50 THEN Refuse
        ELSE LET l == CheckDec(SubSeq(s, Len(s) - 49, Len(s)), LAMBDA p : CkRmd(p, <<>>))
             IN  IF ~l.ok THEN Refuse
                 ELSE LET k == KeyOf("pubkey", 0, l.b)
                      \* prefixes made of base58 letters only could also be read as part of the key
                      IN  IF l.b # <<>> /\ l.b[1] \in {2, 3} THEN k ELSE [k EXCEPT !.err = TRUE]
LegacyText(prefix, v) == LET d == Tail(v.b) IN prefix \o CheckEnc(d, CkRmd(d, <<>>))

---------------------------------------------------------------------------
HexKinds == {"cbytes", "c160", "c256", "c512", "float128"}
TimeKinds == {"tp", "tps", "bts"}
ByteLen(t) == IF t = "cbytes" THEN 0 - 1 ELSE RawSize[t]

TextOf(t, v) ==
    CASE t = "name" -> TextIs(PrintName(v))
      [] t = "symbol" -> IF SymNameOk(v) THEN TextIs(PrintSym(v)) ELSE NoText
      [] t = "symcode" -> LET x == Nat0(StripZ(v.b \o <<0>>))
                          IN  IF Len(v.b) = 8 THEN NoText ELSE IF SymNameOk(x) THEN TextIs(SymName(x)) ELSE NoText
      [] t = "asset" -> IF SymNameOk(v.e[2]) THEN TextIs(PrintAsset(v)) ELSE NoText
      [] t \in {"uint128", "int128"} -> TextIs(PrintInt(v))
      [] t = "blocknum" -> LET d == Digits(v.b) IN TextIs([i \in 1..(10 - Len(d)) |-> 48] \o d)
      [] t \in TimeKinds -> PrintTimeOf(t, v)
      [] t \in HexKinds -> TextIs(Hex(v.b))
      [] t = "blob" -> TextIs(Base64(v.b))
      [] t \in KeyKinds -> TextIs(PrintKey(t, v))

Parse(t, s) ==
    CASE t = "name" -> IF NameDefined(s) THEN Exactly(NameValue(s)) ELSE Anything
      [] t = "symbol" -> ParseSym(s)
      [] t = "symcode" -> ParseSymCode(s)
      [] t = "asset" -> ParseAsset(s)
      [] t = "uint128" -> ParseRange(s, LAMBDA v : FitsU(v, 128))
      [] t = "int128" -> ParseRange(s, LAMBDA v : FitsS(v, 128))
      [] t \in TimeKinds -> ParseTimeOf(t, s)
      [] t \in HexKinds -> ParseHex(s, ByteLen(t))
      [] t = "blob" -> ParseB64(s)
      [] t \in KeyKinds -> ParseKey(t, s)

\* whether an observed parse result (out, value) is one Parse allows
ParseAllows(p, out, v) ==
    IF out = "err" THEN p.err
    ELSE v \in p.vs \/ "any" \in DOMAIN p

---------------------------------------------------------------------------
\* 64-bit integers and block numbers in JSON (s is the whole JSON document)
PrintUintJson(v) == LET d == Digits(v.b) IN IF FitsU(v, 32) THEN d ELSE <<34>> \o d \o <<34>>
ParseUintJson(s, bits) ==
    LET q == Len(s) >= 2 /\ s[1] = 34 /\ s[Len(s)] = 34
        body == IF q THEN SubSeq(s, 2, Len(s) - 1) ELSE s
        p == ParseRange(body, LAMBDA v : FitsU(v, bits))
    IN  IF s = <<110, 117, 108, 108>> THEN Anything        \* null
        ELSE IF q THEN p
        ELSE IF body = <<>> \/ ~IsDigit(body[1]) THEN Refuse ELSE p
=============================================================================
