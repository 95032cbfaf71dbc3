"""hibp-download with a scripted service that fails: retries, partial bodies, exhaustion"""
from .dl import *
RULE = ("every position of 0..6 failures (transport error or HTTP status, 0..all bytes delivered) on one range among 1..4, then "
        "seeded random failure sequences on many ranges; parallel 1..300, batches 1..9; non-trivial: at least one failed attempt")
CODES = [404, 500, 503, 429, 301, 206, 204, 201]


def outcome(rng):
    n = rng.choice([0, 0, 1, 20, 45, 60, 10**6])
    return f"err:{n}" if rng.random() < .5 else f"st:{rng.choice(CODES)}:{n}"


def one(r, exe, d, ranges, kind, par, fail, args, **kw):
    k = len(ranges)
    out = r.path("out")
    p, log = go(r, exe, d, out, (["--ntlm"] if kind == "ntlm" else []) + ["--limit", str(k), "--parallel-max", str(par)] + args,
                fail=fail, **kw)
    txt = "--txt-out" in args
    want = expect(ranges, kind, txt)
    got = read(out) or b""
    dead = any(len(o) > 5 for o in fail.values())
    desc = f"{kind}, {k} ranges, parallel {par}, failures {fail}, {kw} {args}"
    s = sanitizer(p)
    bad = audit(log, par, k, kind == "ntlm", "--testing" in args, done=not dead)
    if not dead:
        n = {}
        for l in log:
            if l.startswith("BEGIN "):
                n[l.split()[1]] = n.get(l.split()[1], 0) + 1
        for i in range(k):
            if n.get(f"{i:05X}", 0) != 1 + len(fail.get(i, [])):
                bad.append(f"range {i:05X}: {n.get(f'{i:05X}', 0)} attempts for {len(fail.get(i, []))} failures")
    if s:
        r.fail(f"download {desc}: {s}", log=log[:80])
    elif dead:
        if p.returncode == 0:
            r.fail(f"download {desc}: reports success although a range failed six times", log=log[:80])
        elif not want.startswith(got):
            r.fail(f"download {desc}: the aborted download wrote something else than the first complete ranges",
                   got=repr(got[:1500]), want=repr(want[:1500]), log=log[:80])
        elif not p.err:
            r.fail(f"download {desc}: no error message")
    elif p.returncode != 0 or got != want:
        r.fail(f"download {desc}: {'failed' if p.returncode else 'wrong output'} (exit {p.returncode}, {len(got)} bytes, "
               f"expected {len(want)})", got=repr(got[:1500]), want=repr(want[:1500]), log=log[:80],
               stderr=p.err.decode("latin1")[-300:])
    if bad and not s:
        r.fail(f"download {desc}: {bad[0]}", complaints=bad[:5], log=log[:80])
    r.case(desc, nontrivial=bool(fail))


def run(r):
    exe = build(r)
    rng = r.rng
    jobs = []
    for k in (1, 2, 4):
        d, ranges = make_ranges(r, 20, k, lines=[rng.choice([1, 2, 3]) for _ in range(k)])
        for nf in range(0, 8):
            for pos in range(k):
                for mode in ("err:0", "err:50", "err:1000000", "st:500:0", "st:503:1000000", "st:404:30", "st:204:0", "st:206:40"):
                    if not r.thorough and rng.random() < .55 and not (nf in (1, 5, 6) and k == 1):
                        continue
                    jobs.append((d, ranges, "sha1", rng.choice([1, 2, 300]), {pos: [mode] * nf} if nf else {},
                                 ["--txt-out"] if rng.random() < .3 else [],
                                 dict(seed=rng.randrange(1 << 30), batch=rng.choice([1, 3]), sleep=rng.choice([0, 200]))))
    for _ in range(600 if r.thorough else 100):
        k = rng.choice([3, 8, 20])
        kind = rng.choice(["sha1", "ntlm"])
        d, ranges = make_ranges(r, 16 if kind == "ntlm" else 20, k)
        fail = {i: [outcome(rng) for _ in range(rng.choice([0, 1, 1, 2, 5]))] for i in range(k) if rng.random() < .5}
        if rng.random() < .12:
            fail[rng.randrange(k)] = [outcome(rng) for _ in range(6)]
        jobs.append((d, ranges, kind, rng.choice([1, 2, 5, 300]), {i: o for i, o in fail.items() if o},
                     ["--txt-out"] if rng.random() < .3 else [],
                     dict(seed=rng.randrange(1 << 30), batch=rng.choice([1, 2, 9]), sleep=rng.choice([0, 100]))))
    rng.shuffle(jobs)

    def do(j):
        if r.left() < 4:
            r.note("time is up before all cases ran")
            return
        one(r, exe, *j[:5], j[5], **j[6])
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(do, jobs))
    # every number of parallel requests either works or is refused
    d, ranges = make_ranges(r, 20, 5)
    for par in (0, 1, 2, 4, 5, 6):
        out = r.path("out")
        p, log = go(r, exe, d, out, ["--limit", "5", "--parallel-max", str(par)])
        got = read(out)
        s = sanitizer(p)
        r.case(("parallel", par))
        if s or (p.returncode == 0 and got != expect(ranges, "sha1", False)):
            r.fail(f"--parallel-max {par}: {s or 'reports success without all ranges'} ({len(got or b'')} bytes)")
        for b in audit(log, par, 5, False, False, done=p.returncode == 0)[:1]:
            r.fail(f"--parallel-max {par}: {b}")
