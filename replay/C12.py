"""real MD4 / NTLM against an independent implementation"""
from .base import *
from .oracle import md4, nthash

RULE = ("every length 0..200 in one update, lengths around block multiples with random splits, Unicode passwords of every "
        "length 0..140 including surrogate pairs; non-trivial: a distinct (bytes, split) pair")


def run(r):
    exe = r.unit("u_md4", srcs=["src/ntlm.cpp", "src/md4.c"])
    ins, want = [], []
    for n in list(range(0, 201)) + [255, 256, 257, 1000, 4095, 4096, 4097, 70000]:
        d = r.rng.randbytes(n)
        for sp in ([], [r.rng.randrange(n + 1)], sorted(r.rng.randrange(0, 70) for _ in range(r.rng.randrange(1, 6)))):
            ins.append(f"U {d.hex() or '-'} {','.join(map(str, sp)) or '0'}")
            want.append(md4(d).hex())
            r.case((n, tuple(sp), d[:4]))
    chars = "aZ09 äßéЖ中日\u0000\u007f\u0080\u07ff\u0800\ud7ff\ue000\uffff\U00010000\U0001F600\U0010FFFF"
    for n in range(0, 141):
        for _ in range(3 if not r.thorough else 40):
            pw = "".join(r.rng.choice(chars) if r.rng.random() < .6 else chr(r.rng.randrange(32, 127)) for _ in range(n))
            ins.append(f"N {pw.encode().hex() or '-'}")
            want.append(nthash(pw).hex())
            r.case(pw)
    for c in range(0x20, 0x110000, 1 if r.thorough else 37):
        if 0xd800 <= c < 0xe000:
            continue
        pw = chr(c)
        ins.append(f"N {pw.encode().hex()}")
        want.append(nthash(pw).hex())
        r.case(pw)
    p = r.run([exe], input="\n".join(ins).encode(), timeout=300)
    s = sanitizer(p)
    got = p.out.decode().split()
    if s:
        r.fail(f"MD4/NTLM: {s}", next_input=ins[len(got)][:4000] if len(got) < len(ins) else None)
    for i, w, g in zip(ins, want, got):
        if w != g:
            r.fail(f"MD4/NTLM of '{i[:80]}': expected {w}, got {g}", input=i[:4000])
    # beyond 2^29 bytes the length no longer fits the low counter
    for n, h in ((1 << 29) + 3, None), ((1 << 29) - 64, None):
        if not r.thorough:
            break
        try:
            import hashlib
            ref = hashlib.new("md4", bytes(n)).hexdigest()
        except ValueError:
            r.note("no reference MD4 fast enough for >2^29 bytes; decided by the proof only")
            break
        g = r.run([r.unit("u_md4", srcs=["src/ntlm.cpp", "src/md4.c"], san=False)], input=f"Z {n}".encode(), timeout=100)
        r.case(("zeros", n))
        if g.out.decode().strip() != ref:
            r.fail(f"MD4 of {n} zero bytes: expected {ref}, got {g.out.decode().strip()}")
