"""--resume from every cut of a complete download, against the uninterrupted result"""
from .dl import *
RULE = ("every cut at, one byte before and one byte after each record boundary (and every byte of one small file), ranges of "
        "1..12 and ~500 records, SHA-1, NTLM and SHA-1/64; unrelated file contents and service failures; non-trivial: the cut "
        "is not at the end of the file")


def run(r):
    exe = build(r)
    rng = r.rng
    jobs = []
    for kind in ("sha1", "ntlm", "sha1t64"):
        n = {"sha1": 20, "ntlm": 16, "sha1t64": 8}[kind]
        shapes = [[1], [1, 1, 1], [3, 1, 2], [2, 5, 1, 4], [12, 7]]
        if r.thorough:
            shapes += [[rng.choice([1, 2, 3, 9]) for _ in range(rng.randrange(1, 7))] for _ in range(8)]
        for sh in shapes:
            d, ranges = make_ranges(r, 16 if kind == "ntlm" else 20, len(sh), lines=sh)
            full = expect(ranges, kind, False)
            w = n + 4
            cuts = set()
            for i in range(1, len(full) // w + 1):
                cuts |= {i * w, i * w + 1, i * w - 1, i * w + rng.randrange(w)}
            if sh == [3, 1, 2] or r.thorough:
                cuts |= set(range(w, len(full) + 1))
            for c in sorted(c for c in cuts if w <= c <= len(full)):
                jobs.append((kind, d, ranges, full, c))
        # more than one buffer load of the reader
        d, ranges = make_ranges(r, 16 if kind == "ntlm" else 20, 3, lines=[300, 520, 400])
        full = expect(ranges, kind, False)
        for _ in range(40 if r.thorough else 10):
            jobs.append((kind, d, ranges, full, rng.randrange(n + 4, len(full))))
        # the last characters of the last line of a range look like an earlier record
        d, ranges = make_ranges(r, 16 if kind == "ntlm" else 20, 3, lines=[4, 4, 4])
        m = 2 * (16 if kind == "ntlm" else 20) - 5
        s = "0" * 4 + "1234567"
        ranges[1] = [(s + "0" * (m - 11), 7)] + ranges[1][1:-1] + [("F" * (m - 11) + s, 9)]
        ranges[1].sort()
        open(os.path.join(d, "00001"), "w").write("\r\n".join(f"{a}:{c}" for a, c in ranges[1]))
        full = expect(ranges, kind, False)
        for i in range(1, 13):
            jobs.append((kind, d, ranges, full, i * (n + 4)))

    def do(j):
        kind, d, ranges, full, cut = j
        if r.left() < 4:
            r.note("time is up before all cases ran")
            return
        f = r.write("db", full[:cut])
        fl = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}[kind]
        k = len(ranges)
        p, log = go(r, exe, d, f, fl + ["--resume", "--limit", str(k)], seed=cut)
        got = read(f)
        desc = f"resume {kind}, ranges of {[len(x) for x in ranges]} records, cut at byte {cut} of {len(full)}"
        r.case(desc, nontrivial=cut < len(full))
        s = sanitizer(p)
        done = cut >= len(full) - 0 and p.returncode != 0     # nothing left to do is an error message
        if s:
            r.fail(f"{desc}: {s}", log=log[:30])
        elif done:
            if got != full:
                r.fail(f"{desc}: a complete file was changed", log=log[:30])
        elif p.returncode != 0 or got != full:
            # a cut inside the very last record of a complete prefix may legitimately find nothing to do
            if p.returncode != 0 and got == full[:len(got)] and "Nothing to do" in p.err.decode("latin1") and len(got) == len(full):
                return
            r.fail(f"{desc}: the finished file differs from an uninterrupted download (exit {p.returncode}, {len(got)} bytes)",
                   got=repr(got[:1200]), want=repr(full[:1200]), log=log[:30], stderr=p.err.decode("latin1")[-300:])
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(do, jobs))
    # the position cannot be established: an error, and the file does not grow
    for kind in ("sha1", "ntlm", "sha1t64"):
        n = {"sha1": 20, "ntlm": 16, "sha1t64": 8}[kind]
        fl = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}[kind]
        d, ranges = make_ranges(r, 16 if kind == "ntlm" else 20, 3, lines=[3, 3, 3])
        full = expect(ranges, kind, False)
        w = n + 4
        garbage = rec(b"\x00\x00\x1f" + b"\xab" * (n - 3), 5) * 3
        cases = [("unrelated records", garbage, None), ("no such range", rec(b"\xff" * n, 1) * 2, None), ("empty file", b"", None),
                 ("half a record", full[:w // 2], None), ("service fails", full[:4 * w], {1: ["err:0"]}),
                 ("service answers nothing", full[:4 * w], {1: ["st:200:0"]}), ("no file", None, None)]
        for what, data, fail in cases:
            f = r.write("db", data) if data is not None else r.path("none")
            p, log = go(r, exe, d, f, fl + ["--resume", "--limit", "3"], fail=fail)
            got = read(f)
            s = sanitizer(p)
            r.case((kind, what))
            if s or (p.returncode == 0 and got != full) or (p.returncode != 0 and got is not None and
                                                           (data is None or not data.startswith(got))):
                r.fail(f"resume {kind}, {what}: {s or 'no error, or the file was extended'} (exit {p.returncode}, "
                       f"{len(got or b'')} bytes from {len(data or b'')})", log=log[:30], stderr=p.err.decode("latin1")[-300:])
            if p.returncode != 0 and not p.err and not p.out:
                r.fail(f"resume {kind}, {what}: no error message")
