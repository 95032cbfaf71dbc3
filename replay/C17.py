"""hibp-dupes against a scan"""
from .base import *
RULE = ("0..12, ~2730 and ~6000 records with runs of equal leading bits, all-zero and all-ones prefixes first, last and in the "
        "middle, every width 32..64; non-trivial: a distinct database and width")


def run(r):
    exe = r.app("dupes")
    rng = r.rng
    for kind, n in (("sha1", 20), ("ntlm", 16)):
        b = 65536 // (n + 4)
        for k in [0, 1, 1, 1, 2, 2, 3, 5, 8, 12, b, b + 1, 2 * b + 3] + ([6, 7, 9, 10, 30] * 6 if r.thorough else []):
            recs = []
            for i in range(k):
                if recs and rng.random() < .5:
                    h = bytearray(recs[-1][0])
                    bit = rng.choice([31, 32, 33, 40, 47, 62, 63, 64, 65, 80])
                    h[bit // 8] ^= 0x80 >> (bit % 8)
                    recs.append((bytes(h), rand_count(rng)))
                else:
                    recs.append((rand_hash(rng, n, rng.choice([None, "ff", "zero"])), rand_count(rng)))
            if k == 1:
                recs = [(rng.choice([b"\xff" * n, bytes(n), rng.randbytes(n)]), 3)]
            if rng.random() < .7:
                recs.sort()
            f = r.write("in.bin", db(recs))
            ws = [32, 33, 40, 47, 48, 63, 64, rng.randrange(32, 65)] if k < 100 else [32, 64]

            def one(w):
                return w, r.run([exe, f, "--bits", str(w)] + (["--ntlm"] if kind == "ntlm" else []))
            with cf.ThreadPoolExecutor(4) as ex:
                for w, p in ex.map(one, ws):
                    r.case((kind, k, w, recs[:1], recs[-1:]))
                    want = []
                    last = None
                    for h, c in recs:
                        v = int.from_bytes(h[:8], "big") >> (64 - w)
                        if v == last:
                            want.append((f"{v:016X}", f"{h.hex().upper()}:{c}"))
                        last = v
                    got = [(l.split(" ")[0], l.split("record: ")[1].rstrip(")")) for l in p.out.decode().splitlines()
                           if " is a dupe" in l]
                    s = sanitizer(p)
                    if s or p.returncode != 0 or got != want:
                        r.fail(f"dupes {kind}, {k} records, {w} bits: {s or ''} expected {len(want)} lines, got {len(got)} "
                               f"(exit {p.returncode})", db_hex=db(recs).hex()[:6000], want=want[:20], got=got[:20])
            os.unlink(f)
