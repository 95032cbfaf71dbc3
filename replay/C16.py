"""hibp-diff: apply the printed difference to the old database"""
from .base import *
RULE = ("old databases of 0..8, ~2730 and ~6000 records (the tool's buffer holds 2730 SHA-1 or 3276 NTLM records), new ones "
        "made by random inserts (also adjacent), updates and, in a third of the cases, a deletion or replacement")


def apply(old, hunks, n):
    out, i = [], 0
    for t, pos, h, c in hunks:
        if pos < i or pos > len(old):
            return None
        out += old[i:pos]
        i = pos
        if t == "I":
            out.append((h, c))
        else:
            if pos >= len(old) or old[pos][0] != h:
                return None
            out.append((h, c))
            i = pos + 1
    return out + old[i:]


def one(r, exe, kind, n, old, new):
    fo, fn = r.write("old.bin", db(old)), r.write("new.bin", db(new))
    p = r.run([exe, fo, fn] + (["--ntlm"] if kind == "ntlm" else []))
    for x in (fo, fn):
        os.unlink(x)
    return p


def judge(r, kind, n, old, new, p, desc):
    s = sanitizer(p)
    grow = set(h for h, _ in old) <= set(h for h, _ in new)
    bad = s
    if not bad and not grow:
        if p.returncode == 0:
            bad = "a record of the old database is missing from the new one, but no error was reported"
    elif not bad:
        try:
            hs = []
            for l in p.out.decode().splitlines():
                t, pos, h, c = l.split(":")
                assert t in "UI" or t in ("85", "73")
                hs.append(({"85": "U", "73": "I"}.get(t, t), int(pos, 16), bytes.fromhex(h), int(c) & 0xffffffff))
            got = apply(old, hs, n)
            need = sum(1 for x in new if x not in set(old))
            if p.returncode != 0:
                bad = f"exit {p.returncode}: {p.err.decode()[-150:]}"
            elif got != new:
                bad = "applying the difference does not give the new database"
            elif len(hs) != need:
                bad = f"{len(hs)} hunks where {need} records differ"
        except Exception as e:
            bad = f"cannot parse the difference: {e!r} {p.out[:200]}"
    if bad:
        r.fail(f"diff {kind}, {desc}: {bad}", old_hex=db(old).hex()[:6000], new_hex=db(new).hex()[:6000],
               output=p.out.decode("latin1")[:2000], err=p.err.decode("latin1")[-300:])


def mutate(rng, n, old, ins, upd, dele):
    new = dict(old)
    ks = list(new)
    for _ in range(upd):
        if ks:
            h = rng.choice(ks)
            new[h] = (new[h] + rng.randrange(1, 100)) & 0x7fffffff
    for _ in range(ins):
        if ks and rng.random() < .6:   # next to an existing record or insert
            v = int.from_bytes(rng.choice(list(new)), "big") + rng.choice([-2, -1, 1, 2])
            v = min(max(v, 0), 256 ** n - 1)
            h = v.to_bytes(n, "big")
        else:
            h = rand_hash(rng, n)
        if h not in new:
            new[h] = rand_count(rng)
    for _ in range(dele):
        if ks:
            h = rng.choice(ks)
            if h in new:
                del new[h]
                if rng.random() < .5:
                    new[rand_hash(rng, n)] = 5
    return sorted(new.items())


def run(r):
    exe = r.app("diff")
    rng = r.rng
    todo = []
    for kind, n in (("sha1", 20), ("ntlm", 16)):
        b = 65536 // (n + 4)
        for k in list(range(9)) * (40 if r.thorough else 9):
            old = sorted_recs(rng, n, k)
            todo.append((kind, n, old, mutate(rng, n, old, rng.randrange(5), rng.randrange(4), rng.random() < .3)))
        for k in (b - 1, b, b + 1, 2 * b, 2 * b + 5) * (3 if r.thorough else 1):
            old = sorted_recs(rng, n, k, "rand")
            todo.append((kind, n, old, mutate(rng, n, old, 3, 3, 0)))
            todo.append((kind, n, old, mutate(rng, n, old, 40, 40, 0)))
            new = list(old)     # changes placed at the buffer boundary
            for i in (b - 2, b - 1, b, b + 1, 2 * b - 1, 2 * b):
                if i < len(new) and rng.random() < .7:
                    new[i] = (new[i][0], new[i][1] ^ 1)
            todo.append((kind, n, old, new))
            todo.append((kind, n, old, [x for i, x in enumerate(old) if i != b - 1]))
    with cf.ThreadPoolExecutor(4) as ex:
        for (kind, n, old, new), p in zip(todo, ex.map(lambda t: one(r, exe, *t), todo)):
            desc = f"{len(old)} -> {len(new)} records"
            r.case((kind, desc, hash(tuple(new))))
            judge(r, kind, n, old, new, p, desc)
            if len(r.fails) >= 15:
                break
