#!/usr/bin/env python3
"""Writes spec/Tables.tla: the constant tables of SHA-256, SHA-512 and RIPEMD-160 (16-bit limbs, high first)."""
import os
from math import isqrt
def primes(n):
    r, c = [], 2
    while len(r) < n:
        if all(c % p for p in r): r.append(c)
        c += 1
    return r
def cbrt_frac(p, bits):
    lo, hi = 0, 1 << (bits + 8)
    x = p << (3 * bits)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= x: lo = m
        else: hi = m - 1
    return lo % (1 << bits)
def sqrt_frac(p, bits): return isqrt(p << (2 * bits)) % (1 << bits)
def limbs(x, n): return "<<" + ", ".join(str((x >> (16 * i)) & 0xffff) for i in reversed(range(n))) + ">>"
def tab(name, xs, n):
    out, line = [], ""
    items = [limbs(x, n) for x in xs] if n else [str(x) for x in xs]
    for i, it in enumerate(items):
        s = it + ("" if i == len(items) - 1 else ", ")
        if len(line) + len(s) > 96: out.append(line); line = ""
        line += s
    out.append(line)
    return name + " == <<\n  " + "\n  ".join(out) + ">>\n"
P = primes(80)
rho = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
ident = list(range(16)); pi = [(9 * i + 5) % 16 for i in range(16)]
rl, rr = [], []
a, b = ident, pi
for _ in range(5):
    rl += a; rr += b
    a = [rho[i] for i in a]; b = [rho[i] for i in b]
sh = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8], [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
      [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9], [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
      [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5]]
# sh[r][i]: rotation in round r for message word i
sl = [sh[j // 16][rl[j]] for j in range(80)]
sr = [sh[j // 16][rr[j]] for j in range(80)]
kl = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]
kr = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
s = "------------------------------- MODULE Tables -------------------------------\n"
s += "(* Generated by tools/mkdigest.py *)\nEXTENDS Naturals, Sequences\n\n"
s += tab("K256", [cbrt_frac(p, 32) for p in P[:64]], 2) + "\n" + tab("H256", [sqrt_frac(p, 32) for p in P[:8]], 2) + "\n"
s += tab("K512", [cbrt_frac(p, 64) for p in P], 4) + "\n" + tab("H512", [sqrt_frac(p, 64) for p in P[:8]], 4) + "\n"
s += tab("RmdRL", rl, 0) + "\n" + tab("RmdRR", rr, 0) + "\n" + tab("RmdSL", sl, 0) + "\n" + tab("RmdSR", sr, 0) + "\n"
s += tab("RmdKL", kl, 2) + "\n" + tab("RmdKR", kr, 2) + "\n"
s += tab("RmdH", [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0], 2)

M32, M64 = (1 << 32) - 1, (1 << 64) - 1
def rol(x, n): return ((x << n) | (x >> (32 - n))) & M32
def ror(x, n, w): return ((x >> n) | (x << (w - n))) & ((1 << w) - 1)
RF = [lambda x, y, z: x ^ y ^ z, lambda x, y, z: (x & y) | (~x & z), lambda x, y, z: (x | (~y & M32)) ^ z,
      lambda x, y, z: (x & z) | (y & ~z), lambda x, y, z: x ^ (y | (~z & M32))]
RH = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
def rmd_block(h, m):
    X = [int.from_bytes(m[4 * i:4 * i + 4], "little") for i in range(16)]
    res = []
    for r, s_, k, fi in ((rl, sl, kl, lambda j: j), (rr, sr, kr, lambda j: 4 - j)):
        A, B, C, D, E = h
        for j in range(80):
            t = (rol((A + (RF[fi(j // 16)](B, C, D) & M32) + X[r[j]] + k[j // 16]) & M32, s_[j]) + E) & M32
            A, E, D, C, B = E, D, rol(C, 10), B, t
        res.append((A, B, C, D, E))
    (a, b, c, d, e), (a2, b2, c2, d2, e2) = res
    return [(h[1] + c + d2) & M32, (h[2] + d + e2) & M32, (h[3] + e + a2) & M32, (h[4] + a + b2) & M32, (h[0] + b + c2) & M32]
def sha_block(h, m, w, K, r0, r1, q0, q1):
    M = (1 << w) - 1; b = w // 8
    X = [int.from_bytes(m[b * i:b * i + b], "big") for i in range(16)]
    sm = lambda x, q: ror(x, q[0], w) ^ ror(x, q[1], w) ^ (x >> q[2])
    bg = lambda x, q: ror(x, q[0], w) ^ ror(x, q[1], w) ^ ror(x, q[2], w)
    for t in range(16, len(K)): X.append((sm(X[t - 2], q1) + X[t - 7] + sm(X[t - 15], q0) + X[t - 16]) & M)
    A, B, C, D, E, F, G, H = h
    for t in range(len(K)):
        t1 = (H + bg(E, r1) + ((E & F) ^ (~E & M & G)) + K[t] + X[t]) & M
        t2 = (bg(A, r0) + ((A & B) ^ (A & C) ^ (B & C))) & M
        A, B, C, D, E, F, G, H = (t1 + t2) & M, A, B, C, (D + t1) & M, E, F, G
    return [(x + y) & M for x, y in zip(h, (A, B, C, D, E, F, G, H))]
K2, K5 = [cbrt_frac(p, 32) for p in P[:64]], [cbrt_frac(p, 64) for p in P]
H2, H5 = [sqrt_frac(p, 32) for p in P[:8]], [sqrt_frac(p, 64) for p in P[:8]]
def sha256_block(h, m): return sha_block(h, m, 32, K2, (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10))
def sha512_block(h, m): return sha_block(h, m, 64, K5, (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6))
def whole(f, h, size, lb, order, msg):
    n = len(msg); msg += b"\x80" + b"\0" * ((size - 1 - lb - n) % size) + (8 * n).to_bytes(lb, order)
    for o in range(0, len(msg), size): h = f(h, msg[o:o + size])
    return b"".join(x.to_bytes((size // 16 if size == 128 else 4), order) for x in h)
def rmd(msg): return whole(rmd_block, RH, 64, 8, "little", msg)
def sha256(msg): return whole(sha256_block, H2, 64, 8, "big", msg)
def sha512(msg): return whole(sha512_block, H5, 128, 16, "big", msg)
import hashlib
assert rmd(b"abc").hex() == "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc", rmd(b"abc").hex()
assert rmd(b"").hex() == "9c1185a5c5e9fc54612808977ee8f548b2258d31"
for t_ in (b"", b"abc", bytes(range(200)) * 3): assert sha256(t_) == hashlib.sha256(t_).digest() and sha512(t_) == hashlib.sha512(t_).digest()

# chaining values after so many zero bytes
LENS = [1 << 12, 1 << 16, 1 << 20, 1 << 24]
def chain(f, h, size):
    out, n, z = [], 0, bytes(size)
    for l in LENS:
        while n < l: h = f(h, z); n += size
        out.append(h)
    return out
s += "\nBulkLens == <<%s>>\n" % ", ".join(map(str, LENS))
for name, f, h, size, n in (("Bulk160", rmd_block, RH, 64, 2), ("Bulk256", sha256_block, H2, 64, 2), ("Bulk512", sha512_block, H5, 128, 4)):
    s += name + " == <<\n" + ",\n".join("  <<" + ", ".join(limbs(x, n) for x in v) + ">>" for v in chain(f, h, size)) + ">>\n"
s += "=============================================================================\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Tables.tla"), "w").write(s)

print("tables ok")
