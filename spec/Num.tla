-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Unbounded numbers for TLC, whose integers are 32 bits wide.             *)
(* A magnitude is a big-endian sequence of base-256 digits without leading *)
(* zero, <<>> being zero.  A number is a value node [k, b, e] with k = "n" *)
(* (>= 0) or "m" (< 0), b its magnitude and e = <<>>.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Node(k, b, e) == [k |-> k, b |-> b, e |-> e]
Nat0(b) == Node("n", b, <<>>)

\* drop leading zero digits
StripZ(s) == LET p == SelectInSeq(s, LAMBDA x : x # 0)
             IN  IF p = 0 THEN <<>> ELSE SubSeq(s, p, Len(s))

RECURSIVE IntToMag(_)
IntToMag(n) == IF n = 0 THEN <<>> ELSE Append(IntToMag(n \div 256), n % 256)

\* only for magnitudes below 2^31
MagToInt(m) == FoldLeft(LAMBDA a, x : a * 256 + x, 0, m)

\* clamp a magnitude to an integer: min(m, cap), cap < 2^24
MagClamp(m, cap) == IF Len(m) > 3 THEN cap
                    ELSE LET i == MagToInt(m) IN IF i > cap THEN cap ELSE i

RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==      \* lexicographic < from position i on
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] = b[i] THEN LexLess(a, b, i + 1)
    ELSE a[i] < b[i]

BytesLess(a, b) == LexLess(a, b, 1)
MagLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLess(a, b, 1)
MagLeq(a, b) == a = b \/ MagLess(a, b)

NumLess(a, b) == IF a.k # b.k THEN a.k = "m"
                 ELSE IF a.k = "n" THEN MagLess(a.b, b.b) ELSE MagLess(b.b, a.b)

Zeros(n) == [i \in 1..n |-> 0]

\* 2^k as a magnitude
Pow2(k) == <<2 ^ (k % 8)>> \o Zeros(k \div 8)

FitsU(v, bits) == v.k = "n" /\ MagLess(v.b, Pow2(bits))
FitsS(v, bits) == IF v.k = "n" THEN MagLess(v.b, Pow2(bits - 1))
                               ELSE MagLeq(v.b, Pow2(bits - 1))

\* big-endian digits in base B: [q, r] of the division by a small d (d*B < 2^31)
DivB(m, d, B) ==
    FoldLeft(LAMBDA a, x : LET c == a.r * B + x
                           IN  [q |-> Append(a.q, c \div d), r |-> c % d],
             [q |-> <<>>, r |-> 0], m)
DivSmall(m, d) == LET x == DivB(m, d, 256) IN [q |-> StripZ(x.q), r |-> x.r]

\* m*k + a on little-endian digits in base B, returned without leading zeros
MulAddLE(m, k, a, B) ==
    LET x == FoldLeft(LAMBDA acc, d : LET c == d * k + acc.c
                                      IN  [o |-> Append(acc.o, c % B), c |-> c \div B],
                      [o |-> <<>>, c |-> a], m)
        RECURSIVE Rest(_)
        Rest(c) == IF c = 0 THEN <<>> ELSE <<c % B>> \o Rest(c \div B)
    IN  x.o \o Rest(x.c)

\* convert big-endian digits from base B1 to base B2, no leading zeros
BaseConv(ds, B1, B2) ==
    StripZ(Reverse(FoldLeft(LAMBDA acc, d : MulAddLE(acc, B1, d, B2), <<>>, ds)))

MulSmall(m, k) == StripZ(Reverse(MulAddLE(Reverse(m), k, 0, 256)))
AddSmall(m, a) == StripZ(Reverse(MulAddLE(Reverse(m), 1, a, 256)))

AddMag(a, b) ==
    LET n == (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) + 1
        x == Reverse(a) \o Zeros(n - Len(a))
        y == Reverse(b) \o Zeros(n - Len(b))
        r == FoldLeft(LAMBDA acc, i : LET c == x[i] + y[i] + acc.c
                                      IN  [o |-> Append(acc.o, c % 256), c |-> c \div 256],
                      [o |-> <<>>, c |-> 0], [i \in 1..n |-> i])
    IN  StripZ(Reverse(r.o))

\* little-endian fixed width encoding of a magnitude that fits
LEU(m, w) == Reverse(m) \o Zeros(w - Len(m))

\* two's complement negation of a w-byte little-endian string
NegLE(s) ==
    FoldLeft(LAMBDA a, x : LET c == (255 - x) + a.c
                           IN  [o |-> Append(a.o, c % 256), c |-> c \div 256],
             [o |-> <<>>, c |-> 1], s).o

LES(v, w) == IF v.k = "n" THEN LEU(v.b, w) ELSE NegLE(LEU(v.b, w))

FromLEU(s) == Nat0(StripZ(Reverse(s)))
FromLES(s) == IF s[Len(s)] < 128 THEN FromLEU(s)
              ELSE Node("m", StripZ(Reverse(NegLE(s))), <<>>)

\* LEB128 of a magnitude / of a small integer
RECURSIVE VarMag(_)
VarMag(m) == IF Len(m) = 0 THEN <<0>>
             ELSE LET d == DivSmall(m, 128)
                  IN  IF d.q = <<>> THEN <<d.r>> ELSE <<d.r + 128>> \o VarMag(d.q)
RECURSIVE VarU(_)
VarU(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o VarU(n \div 128)

\* zig-zag of a signed number as a magnitude: 2n, or 2|n|-1
RECURSIVE DecrLE(_)
DecrLE(s) == IF s[1] > 0 THEN <<s[1] - 1>> \o Tail(s) ELSE <<255>> \o DecrLE(Tail(s))
ZigZag(v) == IF v.k = "n" THEN MulSmall(v.b, 2)
             ELSE StripZ(Reverse(DecrLE(Reverse(MulSmall(v.b, 2)))))
UnZigZag(m) == LET d == DivSmall(m, 2)
               IN  IF d.r = 0 THEN Nat0(d.q) ELSE Node("m", AddSmall(d.q, 1), <<>>)

\* decimal digits (values 0..9) of a magnitude; <<0>> for zero
MagToDec(m) == IF m = <<>> THEN <<0>> ELSE BaseConv(m, 256, 10)
DecToMag(ds) == BaseConv(ds, 10, 256)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
=============================================================================
