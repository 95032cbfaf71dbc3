"""independent oracles"""


def md4(data):
    m = bytearray(data)
    n = len(data) * 8
    m.append(0x80)
    while len(m) % 64 != 56:
        m.append(0)
    m += n.to_bytes(8, "little") if n < 1 << 64 else b""
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]
    M = 0xffffffff

    def rol(x, s):
        x &= M
        return (x << s | x >> (32 - s)) & M
    for o in range(0, len(m), 64):
        X = [int.from_bytes(m[o + 4 * i:o + 4 * i + 4], "little") for i in range(16)]
        a, b, c, d = h
        for i in range(16):
            f = (b & c) | (~b & M & d)
            a, b, c, d = d, rol(a + f + X[i], [3, 7, 11, 19][i % 4]), b, c
        for i in range(16):
            k = (i % 4) * 4 + i // 4
            f = (b & c) | (b & d) | (c & d)
            a, b, c, d = d, rol(a + f + X[k] + 0x5a827999, [3, 5, 9, 13][i % 4]), b, c
        for i in range(16):
            k = [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15][i]
            f = b ^ c ^ d
            a, b, c, d = d, rol(a + f + X[k] + 0x6ed9eba1, [3, 9, 11, 15][i % 4]), b, c
        h = [(x + y) & M for x, y in zip(h, (a, b, c, d))]
    return b"".join(x.to_bytes(4, "little") for x in h)


def nthash(pw):
    return md4(pw.encode("utf-16-le"))


assert md4(b"").hex() == "31d6cfe0d16ae931b73c59d7e0c089c0"
assert md4(b"abc").hex() == "a448017aaf21d8525fc10ae87aa6729d"
assert nthash("password").hex() == "8846f7eaee8fb117ad06bdd830b7586c"
