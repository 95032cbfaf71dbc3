"""hibp-convert both ways against Python"""
from .base import *
RULE = ("0..12, ~170, ~171, ~1000, ~1001, ~2001 records, limits 0,1,n-1,n,n+1,none, LF/CRLF, upper/lower case, final newline or "
        "not, files and standard streams; non-trivial: a distinct direction/size/limit/form")


def run(r):
    exe = r.app("convert")
    rng = r.rng
    for kind, n in (("sha1", 20), ("ntlm", 16)):
        fl = ["--ntlm"] if kind == "ntlm" else []
        buf = 4096 // (n + 4)
        for k in [0, 1, 2, 5, 12, buf - 1, buf, buf + 1, 999, 1000, 1001, 2001] + ([3, 4, 6, 7, 8, 9, 20001] if r.thorough else []):
            recs = [(rand_hash(rng, n), rng.choice([rand_count(rng), 0, 2**32 - 1, 2**31])) for _ in range(k)]
            jobs = []
            for lim in [None, 0, 1, max(0, k - 1), k, k + 1, rng.randrange(k + 1)]:
                jobs.append((lim, rng.random() < .3, rng.random() < .3, rng.choice(["\n", "\r\n"]), rng.random() < .3,
                             rng.random() < .2))

            def one(j):
                lim, so, si, nl, lower, nofinal = j
                sg = lambda c: c - (1 << 32) if c >= 1 << 31 else c
                t = "".join(f"{h.hex() if lower else h.hex().upper()}:{sg(c)}{nl}" for h, c in recs).encode()
                if nofinal and nl == "\n":
                    t = t[:-1]
                exp = recs if lim is None else recs[:lim]
                limf = [] if lim is None else ["--limit", str(lim)]
                res = []
                f, o = r.write("in.txt", t), r.path("out.bin")
                p = r.run([exe, "--txt-to-bin"] + fl + limf + (["--stdin"] if si else ["-i", f]) +
                          (["--stdout"] if so else ["-o", o]), input=t if si else None)
                res.append(("txt-to-bin", p, p.out if so else read(o), db(exp), j))
                g, o2 = r.write("in.bin", db(recs)), r.path("out.txt")
                p = r.run([exe, "--bin-to-txt", "-i", g] + fl + limf + (["--stdout"] if so else ["-o", o2]))
                wt = "".join(f"{h.hex().upper()}:{sg(c)}\n" for h, c in exp).encode()
                res.append(("bin-to-txt", p, p.out if so else read(o2), wt, j))
                for x in (f, g, o, o2):
                    if os.path.exists(x):
                        os.unlink(x)
                return res
            with cf.ThreadPoolExecutor(3) as ex:
                for res in ex.map(one, jobs):
                    for what, p, out, want, j in res:
                        r.case((what, kind, k, j))
                        s = sanitizer(p)
                        if s or p.returncode != 0 or out != want:
                            r.fail(f"convert {what} {kind}, {k} records, limit {j[0]}, stdout={j[1]} stdin={j[2]} "
                                   f"newline={j[3]!r} lower={j[4]}: {s or 'wrong output'} (exit {p.returncode}, "
                                   f"{len(out or b'')} bytes, expected {len(want)}; {p.err[-150:]})",
                                   got=repr((out or b"")[:1500]), want=repr(want[:1500]))
            if k:  # output that does not fit
                f, g = r.write("in.bin", db(recs)), r.write("in.txt", text(recs))
                for cap in (0, k * (n + 4) - 1):
                    for mode, i in (("--bin-to-txt", f), ("--txt-to-bin", g)):
                        p = r.run([exe, mode, "-i", i, "-o", r.path("full")] + fl, fsize=cap)
                        r.case((kind, k, "full", cap, mode))
                        if sanitizer(p) or p.returncode == 0:
                            r.fail(f"convert {mode} {kind}, {k} records, disk full after {cap} bytes: reported success")
            if r.left() < 5:
                r.note("time is up")
                return
