"""hibp-download with the network replaced by a scripted service: output order and content"""
import math
from .dl import *
RULE = ("all arrival orders of 1..4 ranges x batch sizes 1..3 x 1, 2 or 4 parallel requests, then seeded random orders of up to 60 "
        "ranges; SHA-1, NTLM, SHA-1/64, text and binary; LF and CRLF bodies with and without final newline and empty lines; "
        "non-trivial: a distinct order/batch/size/format")


def one(r, exe, k, kind, txt, args, **kw):
    d, ranges = make_ranges(r, 16 if kind == "ntlm" else 20, k, odd=kw.pop("odd", False))
    return run_one(r, exe, d, ranges, k, kind, txt, args, **kw)


def run_one(r, exe, d, ranges, k, kind, txt, args, par=300, limit=None, **kw):
    out = r.path("out")
    fl = (["--ntlm"] if kind == "ntlm" else ["--sha1t64"] if kind == "sha1t64" else []) + (["--txt-out"] if txt else [])
    lim = k if limit is None else limit
    p, log = go(r, exe, d, out, fl + ["--limit", str(lim), "--parallel-max", str(par)] + args, **kw)
    want = expect(ranges, kind, txt, hi=lim)
    got = read(out)
    desc = f"{kind}{' text' if txt else ''}, {lim} ranges, parallel {par}, {kw}"
    s = sanitizer(p)
    bad = audit(log, par, lim, kind == "ntlm", "--testing" in args)
    if s or p.returncode != 0 or got != want:
        r.fail(f"download {desc}: {s or 'wrong output'} (exit {p.returncode}, {len(got or b'')} bytes, expected {len(want)})",
               got=repr((got or b"")[:1500]), want=repr(want[:1500]), log=log[:60], bodies=[x[:3] for x in ranges[:6]],
               stderr=p.err.decode("latin1")[-300:])
    elif bad:
        r.fail(f"download {desc}: {bad[0]}", complaints=bad[:5], log=log[:60])
    r.case(desc)


def run(r):
    exe = build(r)
    rng = r.rng
    jobs = []
    for k in (1, 2, 3, 4):
        perms = list(itertools.permutations(range(k)))
        d, ranges = make_ranges(r, 20, k, lines=[rng.choice([1, 2, 3]) for _ in range(k)])
        for perm in perms:
            for batch in (1, 2, 3):
                for par in (1, 2, 4):
                    if not r.thorough and k == 4 and rng.random() < .6:
                        continue
                    jobs.append(("p", d, ranges, k, dict(perm=perm, batch=batch, par=par, sleep=rng.choice([0, 0, 300]),
                                                          seed=rng.randrange(1 << 30))))
    for i in range(400 if r.thorough else 90):
        kind = rng.choice(["sha1", "ntlm", "sha1t64"])
        jobs.append(("r", kind, rng.random() < .4, rng.choice([1, 2, 5, 17, 60]), rng.random() < .4,
                     dict(batch=rng.choice([1, 2, 5, 40]), par=rng.choice([1, 2, 3, 7, 300]), sleep=rng.choice([0, 50, 400]),
                          seed=rng.randrange(1 << 30)), ["--testing"] if rng.random() < .3 else []))

    # large bodies: several flushes of the writer's buffer, beyond the reserved 64 kB
    for kind in ("sha1", "ntlm", "sha1t64"):
        d, ranges = make_ranges(r, 16 if kind == "ntlm" else 20, 6, lines=[4000, 1, 3000, 2500, 1, 2000])
        jobs.append(("b", kind, d, ranges, dict(batch=2, par=4, seed=rng.randrange(1 << 30))))
    # a limit below what the service has
    d, ranges = make_ranges(r, 20, 5)
    for lim in range(0, 5):
        jobs.append(("l", d, ranges, lim))

    d, ranges = make_ranges(r, 20, 5)  # output that does not fit
    for txt in (False, True):
        for cap in (0, 24, len(expect(ranges, "sha1", txt)) - 1):
            p, _ = go(r, exe, d, r.path("full"), ["--limit", "5"] + (["--txt-out"] if txt else []), fsize=cap)
            r.case(("full", txt, cap))
            if sanitizer(p) or p.returncode == 0:
                r.fail(f"download{' text' if txt else ''}, disk full after {cap} bytes: reported success", stderr=repr(p.err[-300:]))

    def do(j):
        if r.left() < 4:
            r.note("time is up before all cases ran")
            return
        if j[0] == "p":
            run_one(r, exe, j[1], j[2], j[3], "sha1", False, [], **j[4])
        elif j[0] == "r":
            one(r, exe, j[3], j[1], j[2], j[6], odd=j[4], **j[5])
        elif j[0] == "b":
            run_one(r, exe, j[2], j[3], 6, j[1], False, [], **j[4])
        else:
            run_one(r, exe, j[1], j[2], 5, "sha1", True, [], limit=j[3])
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(do, jobs[::-1]))
