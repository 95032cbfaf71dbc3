"""the real download program linked with a scripted libcurl/libevent stand-in"""
import itertools
from .base import *


def build(r, san=True, flags=(), tag=""):
    k = "download-fake" + tag
    if k not in r.built:
        r.built[k] = r.compile(k, SRCS["download"] + [os.path.join(VERIF, "replay", "src", "fakecurl.cpp")], flags=flags,
                               libs=["-pthread"], san=san)
    return r.built[k]


def make_ranges(r, n, k, kind="sha1", lines=None, crlf=None, odd=False):
    """k range bodies -> (dir, [[(suffix, count)]]); n digest size of the service (20 or 16)"""
    d = r.path("ranges")
    os.mkdir(d)
    out = []
    for i in range(k):
        m = lines[i] if lines else r.rng.choice([1, 1, 2, 3, 5, 9])
        suf = sorted({"".join(r.rng.choice("0123456789ABCDEF") for _ in range(2 * n - 5)) for _ in range(m)})
        recs = [(s, rand_count(r.rng)) for s in suf]
        nl = "\r\n" if (crlf if crlf is not None else r.rng.random() < .7) else "\n"
        body = nl.join(f"{s}:{c}" for s, c in recs)
        if r.rng.random() < .5:
            body += nl
        if odd:
            body = r.rng.choice(["", nl, nl + nl]) + body.replace(nl, nl * r.rng.choice([1, 1, 2]), 1) + r.rng.choice(["", nl])
        with open(os.path.join(d, f"{i:05X}"), "w", newline="") as f:
            f.write(body)
        out.append(recs)
    return d, out


def expect(ranges, kind, txt, lo=0, hi=None):
    res = []
    for i, recs in enumerate(ranges):
        if i < lo or (hi is not None and i >= hi):
            continue
        for s, c in recs:
            h = f"{i:05X}{s}"
            if txt:
                res.append(f"{h}:{c}\n".encode())
            else:
                b = bytes.fromhex(h)
                res.append(rec(b[:8] if kind == "sha1t64" else b, c))
    return b"".join(res)


def go(r, exe, d, out, args, seed=1, batch=1, perm=None, fail=None, sleep=0, timeout=40, fsize=1 << 31):
    """one run -> (process, log lines)"""
    lg = r.path("log")
    env = {"FAKE_DIR": d, "FAKE_LOG": lg, "FAKE_SEED": str(seed), "FAKE_BATCH": str(batch), "FAKE_SLEEP": str(sleep)}
    if perm is not None:
        env["FAKE_PERM"] = ",".join(f"{i:05X}" for i in perm)
    if fail:
        ff = r.write("fail", "".join(f"{i:05X} {' '.join(o)}\n" for i, o in fail.items()))
        env["FAKE_FAIL"] = ff
    p = r.run([exe, out] + args, env=env, timeout=timeout, fsize=fsize)
    log = (read(lg) or b"").decode().splitlines()
    return p, log


def audit(log, parallel, k, ntlm, testing, lo=0, done=True):
    """what the scripted service saw -> list of complaints"""
    bad = [l for l in log if l.startswith("BAD")]
    adds = [l.split() for l in log if l.startswith("ADD ")]
    for a in adds:
        if int(a[2]) > parallel:
            bad.append(f"{a[2]} requests outstanding with --parallel-max {parallel}")
        i = a[1]
        base = "http://localhost:8090" if testing else "https://api.pwnedpasswords.com/range"
        want = f"{base}/{i}" + ("?mode=ntlm" if ntlm else "")
        if a[3] != want or not (len(i) == 5 and lo <= int(i, 16) < k):
            bad.append(f"requested {a[3]}, expected {want} with {lo} <= prefix < {k}")
    first = list(dict.fromkeys(a[1] for a in adds))
    if done and sorted(first) != [f"{i:05X}" for i in range(lo, k)]:
        bad.append(f"ranges requested: {first[:20]}")
    # another attempt only after a failure, never after a success
    n, ok = {}, {}
    for l in log:
        f = l.split()
        if f[0] == "BEGIN":
            n[f[1]] = n.get(f[1], 0) + 1
            if ok.get(f[1]) is True:
                bad.append(f"{f[1]} requested again after it had completed")
        if f[0] == "DONE":
            ok[f[1]] = f[2] == "0" and f[3] == "200"
    for i, c in n.items():
        if c > 6:
            bad.append(f"{i} was tried {c} times")
    return bad
