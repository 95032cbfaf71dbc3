"""malformed databases, text files, saved tables, range responses and option values against sanitizer builds of all tools"""
from .dl import *
RULE = ("databases of every size 0..2 records +-1 byte and larger odd sizes with structured and random bytes; mutated text lines "
        "(truncated, overlong, non-hex, NUL, CR, no colon, huge counts); saved tables of every size 0..13 and with wild "
        "entries; broken range responses; boundary numbers for every numeric option; ASAN + UBSAN + libstdc++ assertions; "
        "non-trivial: the input is not well-formed or an option is at a limit")
GA = ["-D_GLIBCXX_ASSERTIONS"]
NUMS = ["0", "1", "2", "3", "15", "31", "32", "63", "64", "65", "255", "1000", "4095", "4096", "65535", "65536", "2147483647",
        "2147483648", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "-1", "1e3", "", "x"]


def mutate(rng, line):
    b = bytearray(line)
    for _ in range(rng.randrange(1, 4)):
        c = rng.randrange(9)
        if c == 0 and b:
            del b[rng.randrange(len(b)):]
        elif c == 1 and b:
            b[rng.randrange(len(b))] = rng.choice([0, 0x2f, 0x3a, 0x40, 0x47, 0x60, 0x67, 0x7f, 0x80, 0xff, 13, 32])
        elif c == 2:
            b += bytes(rng.choice(b"0123456789:\r -+") for _ in range(rng.randrange(40)))
        elif c == 3:
            b = b.replace(b":", b"")
        elif c == 4:
            b = b[:40] + b":" + rng.choice([b"99999999999999999999", b"-2147483649", b"-", b"", b"0x10", b"2147483648"])
        elif c == 5:
            b = bytearray(rng.randbytes(rng.randrange(90)))
        elif c == 6:
            b = bytearray()
        elif c == 7:
            b = b[:rng.choice([1, 4, 5, 15, 16, 17, 31, 32, 33, 39, 40, 41])]
        else:
            b += b"\r"
    return bytes(b).replace(b"\n", b"")


def run(r):
    rng = r.rng
    names = ["search", "diff", "sort", "topn", "convert", "dupes"]
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(r.app, n, True, GA, "-ga") for n in names] + [ex.submit(build, r, True, GA, "-ga")]
        A = {}
        for n, f in zip(names + ["download"], fs):
            try:
                A[n] = f.result()
            except Skip as e:
                r.note(f"skipped: {e}")
    jobs = []

    def add(tool, args, files, what, input=None, outs=()):
        if tool in A:
            jobs.append((tool, args, files, what, input, outs))

    def tools(data, what, kind):
        n = {"sha1": 20, "ntlm": 16, "sha1t64": 8}[kind]
        fl = [] if kind == "sha1" else [f"--{kind}"]
        q = rng.choice([data[:n].ljust(n, b"\0"), rng.randbytes(n), b"\xff" * n, bytes(n)]).hex().upper()
        for t in (["search"] if kind == "sha1t64" else ["search", "diff", "sort", "topn", "convert", "dupes"]):
            if t == "search":
                add(t, ["@0", q, "--hash"] + fl + rng.choice([[], ["--toc"], ["--toc", "--toc-bits", "15"]]), [data], what)
            elif t == "diff":
                other = rng.choice([data, b"", data[:-(n + 4)], rng.randbytes(n + 4), data + rng.randbytes(n + 4)])
                add(t, rng.choice([["@0", "@1"], ["@1", "@0"]]) + fl, [data, other], what)
            elif t == "sort":
                add(t, ["-i", "@0", "--max-memory", rng.choice(["0", "1"])] + fl + rng.choice([[], ["--sort-by-count"]]), [data], what)
            elif t == "topn":
                add(t, ["@0", "--stdout", "--topn", rng.choice(["0", "1", "2", str(len(data))])] + fl, [data], what)
            elif t == "convert":
                add(t, ["--bin-to-txt", "-i", "@0", "--stdout"] + fl + rng.choice([[], ["--limit", rng.choice(["0", "1", "99"])]]), [data], what)
            else:
                add(t, ["@0", "--bits", rng.choice(["32", "33", "63", "64"])] + fl, [data], what)

    # ---- databases
    for kind, n in (("sha1", 20), ("ntlm", 16), ("sha1t64", 8)):
        w = n + 4
        for size in ([0, 1, w - 1, w, w + 1, 2 * w, 2 * w - 1] + ([rng.randrange(5000) for _ in range(20)] if r.thorough else
                                                               [rng.randrange(3000)])):
            for fill in (lambda s: rng.randbytes(s), lambda s: bytes(s), lambda s: b"\xff" * s):
                tools(fill(size), f"database of {size} bytes", kind)
        for k in (3, 171, 205, 500):
            tools(rng.randbytes(k * w), f"{k} random unsorted records", kind)
            tools(rng.randbytes(w) * k, f"{k} equal records", kind)
    # ---- saved tables
    recs = sorted_recs(rng, 20, 40, "low") + [(bytes([0, 2]) + rng.randbytes(18), 4)]
    base = db(sorted(recs))
    for size in list(range(0, 14)) + [4095, 4097]:
        for fill in (bytes(size), b"\xff" * size, rng.randbytes(size)):
            for q in (recs[0][0], bytes([0, 2]) + bytes(18), b"\xff" * 20):
                add("search", ["@0", q.hex().upper(), "--hash", "--toc", "--toc-bits", "15"],
                    [base, (".15.toc", fill)], f"saved table of {size} bytes")
    for ent in ([0, 41], [41, 0], [0, 42], [5, 4], [0, 0xffffffff], [0xffffffff, 0], [40, 40], [41, 41], [2**31, 2**31 + 9]):
        t = b"".join(x.to_bytes(4, "little") for x in ent)
        for q in (recs[0][0], bytes([0, 2]) + bytes(18), recs[-1][0]):
            add("search", ["@0", q.hex().upper(), "--hash", "--toc", "--toc-bits", "15"], [base, (".15.toc", t)],
                f"saved table {ent}")
    # ---- text
    for i in range(260 if r.thorough else 70):
        nt = rng.random() < .5
        lines = [f"{rng.randbytes(16 if nt else 20).hex().upper()}:{rand_count(rng)}".encode() for _ in range(rng.choice([1, 1, 2, 5]))]
        lines[rng.randrange(len(lines))] = mutate(rng, rng.choice(lines))
        t = rng.choice([b"\n", b"\r\n"]).join(lines) + rng.choice([b"", b"\n", b"\n\n"])
        add("convert", ["--txt-to-bin", "--stdin", "--stdout"] + (["--ntlm"] if nt else []), [], f"text {t[:80]!r}", t)
    for l in (b"", b"\n", b"\r\n", b"0", b"0" * 39, b"0" * 40, b"0" * 41, b"0" * 40 + b":", b"\0" * 100, b"\xff" * 50):
        for f in ([], ["--ntlm"]):
            add("convert", ["--txt-to-bin", "--stdin", "--stdout"] + f, [], f"text {l!r}", l)
    # ---- queries
    for q in ["", "a", "\x7f", "\xff\xfe", "é" * 300, "😀" * 40, "x" * 55, "x" * 56, "x" * 63, "x" * 64, "x" * 65, "x" * 5000]:
        for f in ([], ["--ntlm"], ["--sha1t64"], ["--hash"], ["--hash", "--ntlm"]):
            add("search", ["@0", q] + f, [base if "--ntlm" not in f and "--sha1t64" not in f else b""], f"query {q[:20]!r}")
    for bad in (b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\x80\x80", b"\xff", b"\xed\xa0\x80", b"a\xc3(", b"\xf8\x88\x80\x80\x80"):
        add("search", ["@0", bad, "--ntlm"], [b""], f"query {bad!r}")
    # ---- numbers
    small = db(sorted_recs(rng, 20, 30))
    for v in NUMS:
        add("topn", ["@0", "--stdout", "--topn", v], [small], f"--topn {v}")
        add("convert", ["--bin-to-txt", "-i", "@0", "--stdout", "--limit", v], [small], f"--limit {v}")
        add("sort", ["-i", "@0", "--max-memory", v], [small], f"--max-memory {v}")
        add("dupes", ["@0", "--bits", v], [small], f"--bits {v}")
        add("search", ["@0", "0" * 40, "--hash", "--toc", "--toc-bits", v], [small], f"--toc-bits {v}")
        for data, q in ((b"\xff" * 24, "F" * 40), (small + b"\xff" * 24, "F" * 40), (bytes(24), "0" * 40), (bytes(24) + b"\xff" * 24, "80" * 20)):
            add("search", ["@0", q, "--hash", "--toc", "--toc-bits", v], [data], f"--toc-bits {v}, hashes at the ends")
    # ---- range responses
    fd = r.path("bodies")
    os.mkdir(fd)
    for i in range(100 if r.thorough else 30):
        d = os.path.join(fd, str(i))
        os.mkdir(d)
        nt = i % 3 == 0
        for k in range(3):
            ls = [f"{rng.randbytes(20).hex().upper()[:27 if nt else 35]}:{rand_count(rng)}".encode() for _ in range(3)]
            if k == i % 2:
                ls[rng.randrange(3)] = mutate(rng, ls[0])
            body = rng.choice([b"\n", b"\r\n"]).join(ls)
            if rng.random() < .1:
                body = rng.choice([b"", b":", b"\r", b"\n", b"<html></html>", b"\0\0\0", b":" * 50, rng.randbytes(300)])
            open(os.path.join(d, f"{k:05X}"), "wb").write(body)
        jobs.append(("dl", d, (["--ntlm"] if nt else ["--sha1t64"] if i % 3 == 1 else []) + (["--txt-out"] if i % 7 == 0 else []),
                     f"range responses {i}", None, None))
        jobs.append(("rs", d, ["--ntlm"] if nt else ["--sha1t64"] if i % 3 == 1 else [], f"resume, range responses {i}", None, None))
    for v in NUMS:
        if v not in ("2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615"):
            jobs.append(("pm", v, [], f"--parallel-max {v}", None, None))
    rng.shuffle(jobs)

    def do(j):
        tool, args, files, what, inp, _ = j
        if r.left() < 3:
            return False
        data = {}
        if tool in ("dl", "rs", "pm"):
            if "download" not in A:
                return True
            if tool == "pm":
                d = os.path.join(fd, "0")
                p, log = go(r, A["download"], d, r.path("o"), ["--limit", "1", "--parallel-max", args], timeout=30)
            else:
                out = r.path("o")
                if tool == "rs":
                    w = 20 if "--ntlm" in files else 12 if "--sha1t64" in files else 24
                    open(out, "wb").write((b"\0\0\x10" + bytes(w - 3)) * rng.choice([1, 2]) + rng.randbytes(rng.randrange(w)))
                p, log = go(r, A["download"], args, out, files + ["--limit", "3"] + (["--resume"] if tool == "rs" else []), timeout=30)
            cmd = [tool, args]
        else:
            ps = []
            for f in files:
                if isinstance(f, tuple):
                    open(ps[0] + f[0], "wb").write(f[1])
                    os.utime(ps[0], (1, 1))
                    data[f[0]] = f[1].hex()[:2000]
                else:
                    ps.append(r.write("in", f))
                    data[f"@{len(ps) - 1}"] = f.hex()[:4000]
            cmd = [A[tool]] + [ps[int(a[1:])] if isinstance(a, str) and len(a) == 2 and a[0] == "@" else a for a in args]
            cmd = [c if isinstance(c, bytes) else c.encode("utf-8", "surrogateescape") for c in cmd]
            p = r.run(cmd, input=inp, timeout=40)
            for x in ps:
                for y in (x, x + ".15.toc", x + ".20.toc", x + ".sorted"):
                    if os.path.exists(y):
                        os.unlink(y)
        r.case((what, tool, args if tool not in ("dl", "rs") else 0, files if tool in ("dl", "rs") else 0))
        s = sanitizer(p)
        if s:
            r.fail(f"{tool} {args if tool not in ('dl', 'rs') else files} on {what}: {s}", inputs=data,
                   stdin=inp.hex()[:2000] if inp else None)
        elif p.returncode != 0 and not (p.err or p.out):
            r.fail(f"{tool} on {what}: fails without a message", inputs=data)
        return True
    with cf.ThreadPoolExecutor(5) as ex:
        if not all(ex.map(do, jobs)):
            r.note("time is up before all cases ran")
