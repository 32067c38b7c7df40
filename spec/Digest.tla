------------------------------- MODULE Digest -------------------------------
(***************************************************************************)
(* RIPEMD-160, SHA-256 and SHA-512 of byte strings, base 58 and checked    *)
(* base 58.  Words are sequences of 16-bit limbs, most significant first.  *)
(***************************************************************************)
EXTENDS Num, Tables, Bitwise

W0(n) == [i \in 1..n |-> 0]

\* sum of a sequence of 2-limb words, modulo 2^32
Add32(ws) ==
    LET lo == FoldLeft(LAMBDA a, x : a + x[2], 0, ws)
        hi == FoldLeft(LAMBDA a, x : a + x[1], 0, ws) + (lo \div 65536)
    IN  <<hi % 65536, lo % 65536>>
Add64(ws) ==
    LET d == FoldLeft(LAMBDA a, x : a + x[4], 0, ws)
        c == FoldLeft(LAMBDA a, x : a + x[3], 0, ws) + (d \div 65536)
        b == FoldLeft(LAMBDA a, x : a + x[2], 0, ws) + (c \div 65536)
        a == FoldLeft(LAMBDA y, x : y + x[1], 0, ws) + (b \div 65536)
    IN  <<a % 65536, b % 65536, c % 65536, d % 65536>>

WXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
WAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
WOr(a, b)  == [i \in 1..Len(a) |-> a[i] | b[i]]
WNot(a)    == [i \in 1..Len(a) |-> 65535 - a[i]]
Xor3(a, b, c) == [i \in 1..Len(a) |-> (a[i] ^^ b[i]) ^^ c[i]]

\* rotate right by n bits (0 <= n < 16 * Len(a))
RotR(a, n) ==
    LET k == Len(a)
        q == n \div 16
        r == n % 16
        L(i) == a[((i - 1 - q + 2 * k) % k) + 1]      \* rotated by whole limbs
    IN  IF r = 0 THEN [i \in 1..k |-> L(i)]
        ELSE [i \in 1..k |-> (L(i) \div (2 ^ r)) + ((L(((i - 2 + k) % k) + 1) * (2 ^ (16 - r))) % 65536)]
RotL(a, n) == IF n = 0 THEN a ELSE RotR(a, 16 * Len(a) - n)
\* shift right
ShR(a, n) ==
    LET k == Len(a)
        q == n \div 16
        r == n % 16
        L(i) == IF i - q < 1 THEN 0 ELSE a[i - q]
    IN  [i \in 1..k |-> (L(i) \div (2 ^ r)) + (IF r = 0 THEN 0 ELSE (L(i - 1) * (2 ^ (16 - r))) % 65536)]

\* big-endian bytes <-> words of k limbs
WordBE(s, i, k) == [j \in 1..k |-> s[i + 2 * j - 2] * 256 + s[i + 2 * j - 1]]
BytesBE(w) == FlattenSeq([j \in 1..Len(w) |-> <<w[j] \div 256, w[j] % 256>>])
WordLE32(s, i) == <<s[i + 3] * 256 + s[i + 2], s[i + 1] * 256 + s[i]>>
BytesLE32(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>

\* 0x80, zeros, so that length + |pad| + lenbytes is a multiple of block
Pad(n, block, lenbytes) == <<128>> \o Zeros((2 * block - 1 - lenbytes - (n % block)) % block)
BitLenBE(n, w) == Zeros(w - 4) \o <<n \div 2097152, (n \div 8192) % 256, (n \div 32) % 256, (n % 32) * 8>>

---------------------------------------------------------------------------
Ch(x, y, z) == [i \in 1..Len(x) |-> (x[i] & y[i]) ^^ ((65535 - x[i]) & z[i])]
Maj(x, y, z) == [i \in 1..Len(x) |-> ((x[i] & y[i]) ^^ (x[i] & z[i])) ^^ (y[i] & z[i])]

\* digest of a message that ends in msg, H being the chaining value after the done bytes (whole blocks) before
Sha(done, msg, block, limbs, rounds, H, K, Add(_), S0(_), S1(_), s0(_), s1(_), lenbytes) ==
    LET n == done + Len(msg)
        m == msg \o Pad(n, block, lenbytes) \o BitLenBE(n, lenbytes)
        wb == 2 * limbs
        Sched(o) == FoldLeft(LAMBDA w, t : Append(w, Add(<<s1(w[t - 2]), w[t - 7], s0(w[t - 15]), w[t - 16]>>)),
                             [t \in 1..16 |-> WordBE(m, o + wb * (t - 1), limbs)],
                             [t \in 1..(rounds - 16) |-> t + 16])
        Compress(h, o) ==
            LET w == Sched(o)
                r == FoldLeft(LAMBDA v, t :
                        LET t1 == Add(<<v[8], S1(v[5]), Ch(v[5], v[6], v[7]), K[t], w[t]>>)
                            t2 == Add(<<S0(v[1]), Maj(v[1], v[2], v[3])>>)
                        IN  <<Add(<<t1, t2>>), v[1], v[2], v[3], Add(<<v[4], t1>>), v[5], v[6], v[7]>>,
                        h, [t \in 1..rounds |-> t])
            IN  [i \in 1..8 |-> Add(<<h[i], r[i]>>)]
        fin == FoldLeft(LAMBDA h, b : Compress(h, block * (b - 1) + 1), H, [b \in 1..(Len(m) \div block) |-> b])
    IN  FlattenSeq([i \in 1..8 |-> BytesBE(fin[i])])

Sha256From(done, H, msg) == Sha(done, msg, 64, 2, 64, H, K256, Add32,
    LAMBDA x : Xor3(RotR(x, 2), RotR(x, 13), RotR(x, 22)), LAMBDA x : Xor3(RotR(x, 6), RotR(x, 11), RotR(x, 25)),
    LAMBDA x : Xor3(RotR(x, 7), RotR(x, 18), ShR(x, 3)), LAMBDA x : Xor3(RotR(x, 17), RotR(x, 19), ShR(x, 10)), 8)
Sha512From(done, H, msg) == Sha(done, msg, 128, 4, 80, H, K512, Add64,
    LAMBDA x : Xor3(RotR(x, 28), RotR(x, 34), RotR(x, 39)), LAMBDA x : Xor3(RotR(x, 14), RotR(x, 18), RotR(x, 41)),
    LAMBDA x : Xor3(RotR(x, 1), RotR(x, 8), ShR(x, 7)), LAMBDA x : Xor3(RotR(x, 19), RotR(x, 61), ShR(x, 6)), 16)
Sha256(msg) == Sha256From(0, H256, msg)
Sha512(msg) == Sha512From(0, H512, msg)

---------------------------------------------------------------------------
\* RIPEMD-160
RmdF(f, x, y, z) ==
    CASE f = 0 -> Xor3(x, y, z)
      [] f = 1 -> WOr(WAnd(x, y), WAnd(WNot(x), z))
      [] f = 2 -> WXor(WOr(x, WNot(y)), z)
      [] f = 3 -> WOr(WAnd(x, z), WAnd(y, WNot(z)))
      [] f = 4 -> WXor(x, WOr(y, WNot(z)))

RmdLine(h, X, R_, S_, K_, rev) ==
    FoldLeft(LAMBDA v, j :
        LET q == j \div 16
            t == Add32(<<RotL(Add32(<<v[1], RmdF(IF rev THEN 4 - q ELSE q, v[2], v[3], v[4]), X[R_[j + 1] + 1], K_[q + 1]>>), S_[j + 1]), v[5]>>)
        IN  <<v[5], t, v[2], RotL(v[3], 10), v[4]>>,
        h, [j \in 1..80 |-> j - 1])

RmdCompress(h, m, o) ==
    LET X == [i \in 1..16 |-> WordLE32(m, o + 4 * (i - 1))]
        a == RmdLine(h, X, RmdRL, RmdSL, RmdKL, FALSE)
        b == RmdLine(h, X, RmdRR, RmdSR, RmdKR, TRUE)
    IN  <<Add32(<<h[2], a[3], b[4]>>), Add32(<<h[3], a[4], b[5]>>), Add32(<<h[4], a[5], b[1]>>),
          Add32(<<h[5], a[1], b[2]>>), Add32(<<h[1], a[2], b[3]>>)>>

\* digest of the rest of a message, from chaining value h reached after
\* 64-byte blocks whose total length in bytes is the magnitude done
RmdFrom(h0, done, rest) ==
    LET n == Len(rest)
        total == MulSmall(AddSmall(done, n), 8)
        m == rest \o Pad(n, 64, 8) \o LEU(total, 8)
        fin == FoldLeft(LAMBDA h, b : RmdCompress(h, m, 64 * (b - 1) + 1), h0, [b \in 1..(Len(m) \div 64) |-> b])
    IN  FlattenSeq([i \in 1..5 |-> BytesLE32(fin[i])])

Ripemd160(msg) == RmdFrom(RmdH, <<>>, msg)

BulkExp == <<12, 16, 20, 24>>
ASSUME \A k \in 1..4 : BulkLens[k] = 2 ^ BulkExp[k]
\* digests of BulkLens[k] zero bytes followed by rest
Bulk(form, k, rest) ==
    CASE form = "160" -> RmdFrom(Bulk160[k], Pow2(BulkExp[k]), rest)
      [] form = "256" -> Sha256From(BulkLens[k], Bulk256[k], rest)
      [] form = "512" -> Sha512From(BulkLens[k], Bulk512[k], rest)

\* chaining value after 2^29 zero bytes (computed once, and checked against OpenSSL)
RmdBulkH == <<<<24718, 10315>>, <<44438, 35003>>, <<64834, 60022>>, <<3536, 18632>>, <<25493, 57118>>>>
RmdBulkLen == Pow2(29)

---------------------------------------------------------------------------
\* base 58: texts are sequences of character codes
B58 == <<49,50,51,52,53,54,55,56,57, 65,66,67,68,69,70,71,72,74,75,76,77,78,80,81,82,83,84,85,86,87,88,89,90,
         97,98,99,100,101,102,103,104,105,106,107,109,110,111,112,113,114,115,116,117,118,119,120,121,122>>
B58Inv == [c \in 0..255 |-> LET p == SelectInSeq(B58, LAMBDA x : x = c) IN p - 1]

LeadZ(s) == LET p == SelectInSeq(s, LAMBDA x : x # 0) IN IF p = 0 THEN Len(s) ELSE p - 1
B58Enc(b) == [i \in 1..LeadZ(b) |-> 49] \o
             LET d == BaseConv(StripZ(b), 256, 58) IN [i \in 1..Len(d) |-> B58[d[i] + 1]]
B58Valid(s) == \A i \in 1..Len(s) : B58Inv[s[i]] >= 0
B58Dec(s) == IF ~B58Valid(s) THEN <<>>
             ELSE LET d == [i \in 1..Len(s) |-> B58Inv[s[i]]]
                  IN  Zeros(LeadZ(d)) \o BaseConv(StripZ(d), 58, 256)

\* whether t is the text of b.  Long ones are compared modulo twelve primes (below 2^23, so that nothing overflows),
\* by their leading zeros and by their length
Moduli == {8388593, 8388587, 8388581, 8388571, 8388547, 8388539, 8388473, 8388461, 8388451, 8388449, 8388439, 8388427}
Residue(s, base, p) == FoldLeft(LAMBDA a, x : (a * base + x) % p, 0, s)
B58Is(b, t) ==
    IF Len(b) <= 120 /\ Len(t) <= 170 THEN t = B58Enc(b)
    ELSE /\ B58Valid(t)
         /\ LET d == [i \in 1..Len(t) |-> B58Inv[t[i]]]
                z == LeadZ(b)
                n == Len(b) - z
                m == Len(d) - z
            IN  /\ LeadZ(d) = z
                /\ ((n - 1) * 13656) \div 10000 <= m /\ m <= ((n * 13657) \div 10000) + 1
                /\ \A p \in Moduli : Residue(b, 256, p) = Residue(d, 58, p)

CkSha(b) == SubSeq(Sha256(Sha256(b)), 1, 4)
CkRmd(b, suffix) == SubSeq(Ripemd160(b \o suffix), 1, 4)
CheckEnc(b, ck) == B58Enc(b \o ck)
\* [ok, b]: the payload of a checked string; Ck maps a payload to its checksum
CheckDec(s, Ck(_)) ==
    LET d == B58Dec(s)
        n == Len(d)
        p == SubSeq(d, 1, n - 4)
    IN  IF n < 4 THEN [ok |-> FALSE, b |-> <<>>]
        ELSE IF SubSeq(d, n - 3, n) # Ck(p) THEN [ok |-> FALSE, b |-> <<>>]
        ELSE [ok |-> TRUE, b |-> p]
=============================================================================
