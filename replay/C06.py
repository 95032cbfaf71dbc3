"""hibp-search against a dictionary"""
import hashlib
from .base import *
from .oracle import nthash

RULE = ("sorted databases of 0..12, ~170, ~171 and ~1500 records per hash kind (the tool's buffer holds 4096/recordsize), each "
        "queried for every or many present hashes, neighbours one off, minimum, maximum, random, and plain-text passwords; "
        "non-trivial: a database/query pair not tried before")


def ask(r, exe, f, q, flags):
    p = r.run([exe, f, q] + flags)
    s = sanitizer(p)
    o = p.out.decode("latin1").splitlines()
    return p, s, next((l[9:] for l in o if l.startswith("needle = ")), None), \
        next((l[9:] for l in o if l.startswith("found  = ")), None), any(l == "not found" for l in o)


def neighbours(h):
    v = int.from_bytes(h, "big")
    m = 256 ** len(h) - 1
    return [max(0, v - 1).to_bytes(len(h), "big"), min(m, v + 1).to_bytes(len(h), "big"),
            bytes([h[0] ^ 0x80]) + h[1:], h[:-1] + bytes([h[-1] ^ 0x80])]


def run(r):
    exe = r.app("search")
    for kind, n in SIZES.items():
        fl = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}[kind]
        buf = 4096 // (n + 4)
        sizes = [0, 1, 2, 3, 7, buf - 1, buf, buf + 1, 2 * buf + 1, 1500]
        if r.thorough:
            sizes += list(range(4, 40)) + [5 * buf - 1, 5 * buf, 40000]
        for k in sizes:
            pws = [f"pässword{i}" if i % 3 == 0 else "p%d" % i for i in range(3)]
            hs = [(nthash(p) if kind == "ntlm" else hashlib.sha1(p.encode()).digest()[:n]) for p in pws]
            recs = dict(sorted_recs(r.rng, n, k, r.rng.choice([None, "rand", "pre"])))
            if k > 2:
                recs[hs[0]] = rand_count(r.rng)
                recs[hs[1]] = 2
            recs = sorted(recs.items())
            d = dict(recs)
            f = r.write(f"{kind}.bin", db(recs))
            qs = []
            idx = sorted({0, len(recs) - 1, len(recs) // 2, min(buf, len(recs) - 1), min(buf - 1, len(recs) - 1),
                          r.rng.randrange(len(recs)), r.rng.randrange(len(recs))}) if recs else []
            for i in idx:
                qs.append(recs[i][0])
            for i in r.rng.sample(idx, min(2, len(idx))):
                qs += neighbours(recs[i][0])[:3]
            qs += [bytes(n), b"\xff" * n, r.rng.randbytes(n)]
            if r.left() < 5:
                r.note("time is up: remaining sizes not tried")
                return
            todo = [(q.hex().upper(), q, ["--hash"]) for q in qs] + [(p, h, []) for p, h in zip(pws, hs)]
            if k not in (3, 1500, buf):
                todo = todo[:10] + todo[-2:]
            with cf.ThreadPoolExecutor(3) as ex:
                res = list(ex.map(lambda t: ask(r, exe, f, t[0], fl + t[2]), todo))
            for (q, h, x), (p, s, needle, found, nf) in zip(todo, res):
                r.case((kind, k, q))
                want = f"{h.hex().upper()}:{d[h]}" if h in d else None
                ok = not s and p.returncode == 0 and needle is not None and needle.split(":")[0] == h.hex().upper() and \
                    found == want and nf == (want is None)
                if not ok:
                    r.fail(f"search {kind}, {len(recs)} records, query {q}: expected {want or 'not found'}, got "
                           f"{found or ('not found' if nf else p.err[-200:])} (needle {needle}) {s or ''}",
                           command=[exe] + fl + x + [q], db_hex=db(recs).hex()[:20000], expected=want)
            for bad in ["", "0", hs[0].hex(), hs[0].hex().upper()[:-1], hs[0].hex().upper() + "0",
                        hs[0].hex().upper()[:-1] + "G", " " + hs[0].hex().upper()[1:]]:
                if not bad.isupper() and bad == hs[0].hex() and bad.upper() == bad:
                    continue
                if k != 3 or not bad:
                    continue
                r.case((kind, k, "bad", bad))
                p, s, needle, found, nf = ask(r, exe, f, bad, fl + ["--hash"])
                if s or p.returncode == 0 or needle is not None:
                    r.fail(f"search {kind} accepted the malformed hash {bad!r}", command=fl + ["--hash", bad])
