"""RIPEMD-160, base58 and key texts in Python; only used to generate interesting inputs, never to judge results."""
import hashlib
rho = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
rl, rr = [], []
a, b = list(range(16)), [(9 * i + 5) % 16 for i in range(16)]
for _ in range(5):
    rl += a; rr += b
    a = [rho[i] for i in a]; b = [rho[i] for i in b]
sh = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8], [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
      [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9], [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
      [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5]]
kl = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]
kr = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
M = (1 << 32) - 1
rol = lambda x, n: ((x << n) | (x >> (32 - n))) & M
f = [lambda x, y, z: x ^ y ^ z, lambda x, y, z: (x & y) | (~x & M & z), lambda x, y, z: (x | (~y & M)) ^ z,
     lambda x, y, z: (x & z) | (y & ~z & M), lambda x, y, z: x ^ (y | (~z & M))]
def rmd160(msg):
    msg = bytes(msg)
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
    m = msg + b"\x80" + b"\0" * ((119 - len(msg)) % 64) + (8 * len(msg)).to_bytes(8, "little")
    for o in range(0, len(m), 64):
        X = [int.from_bytes(m[o + 4 * i:o + 4 * i + 4], "little") for i in range(16)]
        def line(R, K, rev):
            v = list(h)
            for j in range(80):
                q = j // 16
                t = (rol((v[0] + f[4 - q if rev else q](v[1], v[2], v[3]) + X[R[j]] + K[q]) & M, sh[q][R[j]]) + v[4]) & M
                v = [v[4], t, v[1], rol(v[2], 10), v[3]]
            return v
        A, B = line(rl, kl, False), line(rr, kr, True)
        h = [(h[1] + A[2] + B[3]) & M, (h[2] + A[3] + B[4]) & M, (h[3] + A[4] + B[0]) & M, (h[4] + A[0] + B[1]) & M, (h[0] + A[1] + B[2]) & M]
    return b"".join(x.to_bytes(4, "little") for x in h)
ALPH = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def b58(b):
    b = bytes(b); n = int.from_bytes(b, "big"); s = ""
    while n: s = ALPH[n % 58] + s; n //= 58
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s
def ckr(b, suffix=b""): return b58(bytes(b) + rmd160(bytes(b) + suffix)[:4])
def cks(b):
    b = bytes(b)
    return b58(b + hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4])
def keytext(kind, key):
    kt = [b"K1", b"R1", b"WA"][key[0]]
    return ("PUB_" if kind == "pubkey" else "SIG_") + kt.decode() + "_" + ckr(key[1:], kt)
if __name__ == "__main__":
    assert rmd160(b"abc").hex() == "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"
    assert rmd160(b"a" * 200).hex() == hashlib.new("ripemd160", b"a" * 200).hexdigest()
