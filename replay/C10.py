"""hibp-topn against sorted()"""
from .base import *
RULE = ("databases of 0..40 and ~3000 records, counts from small ranges (many ties) or wide, every N around 0, 1, the size and "
        "random, file and standard output; non-trivial: a distinct database, N and target")


def run(r):
    exe = r.app("topn")
    rng = r.rng
    sizes = [1, 2, 3, 5, 9, 17, 40, 200] + [3000] + ([1] * 3 + [60, 61, 62] * 10 if r.thorough else [])
    for kind, n in SIZES.items():
        for k in sizes:
            for rngc in (1, 3, 2**31 - 1):
                recs = [(h, rng.randrange(1, rngc + 1)) for h, _ in sorted_recs(rng, n, k)]
                if rngc == 3 and k > 3:
                    recs = [(h, rng.choice([0, -1, 1, 2])) for h, _ in recs]
                if k % 2:
                    rng.shuffle(recs)
                f = r.write("in.bin", db(recs))
                jobs = []
                for N in sorted({0, 1, k - 1, k, k + 1, k // 2, rng.randrange(k + 1)}):
                    jobs.append((N, rng.random() < .4))

                def one(j):
                    N, so = j
                    o = r.path("out.bin")
                    p = r.run([exe, f, "-N", str(N)] + {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}[kind] +
                              (["--stdout"] if so else ["-o", o]))
                    out = p.out if so else read(o)
                    if os.path.exists(o):
                        os.unlink(o)
                    return N, so, p, out
                with cf.ThreadPoolExecutor(3) as ex:
                    for N, so, p, out in ex.map(one, jobs):
                        r.case((kind, k, rngc, N, so, recs[0][0].hex()))
                        s = sanitizer(p)
                        sgn = lambda c: c - (1 << 32) if c >= 1 << 31 else c
                        best = sorted(recs, key=lambda x: (-x[1], x[0]))[:N]
                        want = db(sorted(best))
                        ok = (p.returncode == 0 and out == want) if N < k else p.returncode != 0
                        if s or not ok:
                            r.fail(f"topn {kind}, {k} records, counts 1..{rngc}, N={N}, "
                                   f"{'standard output' if so else 'file'}: {s or 'wrong result'} (exit {p.returncode}, "
                                   f"{len(out or b'')} bytes, expected {len(want)})", key=None, db_hex=db(recs).hex()[:4000],
                                   got_hex=(out or b"").hex()[:2000], want_hex=want.hex()[:2000])
                if k > 1 and rngc == 1:  # output that does not fit
                    for cap in (0, (k - 1) * (n + 4) - 1):
                        p = r.run([exe, f, "-N", str(k - 1), "-o", r.path("full")] +
                                  {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}[kind], fsize=cap)
                        r.case((kind, k, "full", cap))
                        if sanitizer(p) or p.returncode == 0:
                            r.fail(f"topn {kind}, {k} records, disk full after {cap} bytes: reported success")
                os.unlink(f)
                if r.left() < 5:
                    r.note("time is up")
                    return
