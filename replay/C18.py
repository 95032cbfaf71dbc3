"""every option combination of the three writing tools, with and without an existing output file"""
from .dl import *
RULE = ("all subsets of the tools' flags x existing output: none, some content, empty, symbolic link, read-only, directory; "
        "non-trivial: the output exists or the options contradict each other")


def subsets(l):
    for i in range(1 << len(l)):
        yield [x for j, x in enumerate(l) if i >> j & 1]


def shape(r, kind, data):
    """-> (path given to the tool, path of the file whose bytes must survive)"""
    if kind == "none":
        p = r.path("out")
        return p, p
    if kind == "link":
        t = r.write("target", data)
        p = r.path("link")
        os.symlink(t, p)
        return p, t
    if kind == "dir":
        p = r.path("outdir")
        os.mkdir(p)
        return p, p
    p = r.write("out x", b"" if kind == "empty" else data)
    if kind == "ro":
        os.chmod(p, 0o444)
    return p, p


def snap(p):
    if os.path.isdir(p):
        return ("dir", tuple(os.listdir(p)))
    return read(p)


def run(r):
    rng = r.rng
    jobs = []
    shapes = ["none", "some", "empty", "link", "ro", "dir"]
    # ---- download
    exe = build(r)
    dirs = {n: make_ranges(r, n, 3, lines=[3, 2, 4], crlf=True) for n in (20, 16)}
    for fl in subsets(["--resume", "--force", "--ntlm", "--sha1t64", "--txt-out"]):
        for sh in shapes:
            if len(fl) > 3 and sh not in ("none", "some") and not r.thorough:
                continue
            jobs.append(("dl", fl, sh))
    # ---- convert
    cexe = r.app("convert")
    recs = [(rng.randbytes(20), 5), (rng.randbytes(20), 6)]
    for fl in subsets(["--txt-to-bin", "--bin-to-txt", "-i", "--stdin", "-o", "--stdout", "--force"]):
        for sh in (shapes if len(fl) in (3, 4) else ["none", "some"]):
            if sh not in ("none", "some") and rng.random() < .6 and not r.thorough:
                continue
            jobs.append(("cv", fl, sh))
    # ---- topn
    texe = r.app("topn")
    for fl in subsets(["-o", "--stdout", "--force", "--ntlm", "--sha1t64"]):
        for sh in shapes:
            jobs.append(("tn", fl, sh))
    tdb = {n: r.write(f"t{n}", db(sorted_recs(rng, n, 9))) for n in (20, 16, 8)}
    tin, bin_ = r.write("c.txt", text(recs)), r.write("c.bin", db(recs))

    def do(j):
        if r.left() < 4:
            r.note("time is up before all cases ran")
            return
        tool, fl, sh = j
        bad = None
        if tool == "dl":
            kind = "ntlm" if "--ntlm" in fl else "sha1t64" if "--sha1t64" in fl else "sha1"
            d, ranges = dirs[16 if kind == "ntlm" else 20]
            txt = "--txt-out" in fl
            full = expect(ranges, kind, txt)
            w = {"sha1": 24, "ntlm": 20, "sha1t64": 12}[kind]
            old = full[:4 * w] if not txt else full[:50]
            path, tgt = shape(r, sh, old)
            before = snap(tgt)
            p, log = go(r, exe, d, path, fl + ["--limit", "3"])
            contra = ("--txt-out" in fl and "--resume" in fl) or ("--force" in fl and "--resume" in fl) or \
                ("--ntlm" in fl and "--sha1t64" in fl)
            resume, force = "--resume" in fl, "--force" in fl
            ok_new = full
        elif tool == "cv":
            path, tgt = shape(r, sh, b"precious" * 40)
            before = snap(tgt)
            t2b, b2t = "--txt-to-bin" in fl, "--bin-to-txt" in fl
            cmd = [cexe]
            for f in fl:
                cmd += ["-i", bin_ if b2t and not t2b else tin] if f == "-i" else ["-o", path] if f == "-o" else [f]
            p = r.run(cmd, input=text(recs))
            contra = t2b == b2t or ("-i" in fl) == ("--stdin" in fl) or ("-o" in fl) == ("--stdout" in fl) or \
                (b2t and "--stdin" in fl)
            resume, force = False, "--force" in fl
            ok_new = (text(recs) if b2t else db(recs)) if "-o" in fl else before
            if "-o" not in fl and not contra:
                if p.returncode != 0 or p.out != (text(recs) if b2t else db(recs)):
                    bad = "standard output differs"
        else:
            n = 16 if "--ntlm" in fl else 8 if "--sha1t64" in fl else 20
            path, tgt = shape(r, sh, b"precious" * 40)
            before = snap(tgt)
            cmd = [texe, tdb[n], "--topn", "4"]
            for f in fl:
                cmd += ["-o", path] if f == "-o" else [f]
            p = r.run(cmd)
            contra = ("-o" in fl) == ("--stdout" in fl) or ("--ntlm" in fl and "--sha1t64" in fl)
            resume, force = False, "--force" in fl
            rr = parse(read(tdb[n]), n)
            ok_new = db(sorted(sorted(rr, key=lambda x: (-x[1], x[0]))[:4])) if "-o" in fl else before
        after = snap(tgt)
        uses = tool == "dl" or "-o" in fl
        exists = sh != "none"
        s = sanitizer(p)
        desc = f"{ {'dl': 'download', 'cv': 'convert', 'tn': 'topn'}[tool]} {' '.join(fl)}, output: {sh}"
        r.case(desc, nontrivial=exists or contra)
        if s:
            bad = s
        elif contra:
            if p.returncode == 0:
                bad = "contradictory options are accepted"
            elif after != before:
                bad = "contradictory options, but the output file was touched"
            elif tool == "dl" and log:
                bad = "contradictory options, but the network was used"
        elif uses and exists and not force and not resume:
            if p.returncode == 0:
                bad = "an existing output file is accepted without --force"
            elif after != before:
                bad = "an existing output file was changed without --force"
        elif uses and resume:
            if sh in ("none", "empty", "dir"):
                if p.returncode == 0:
                    bad = "resuming something that is not there succeeds"
            elif after != full and not (sh == "ro" and os.geteuid() != 0):
                bad = f"resume did not complete the file (exit {p.returncode})"
        elif uses and sh == "dir":
            if p.returncode == 0 or after != before:
                bad = "a directory as output file is accepted"
        elif uses and (p.returncode != 0 or after != ok_new) and sh != "ro":
            bad = f"wrong output (exit {p.returncode})"
        elif not uses and after != before:
            bad = "an unrelated file was changed"
        if not bad and p.returncode != 0 and not (p.err or p.out):
            bad = "an error without a message"
        if bad:
            r.fail(f"{desc}: {bad}", before=repr(before)[:300], after=repr(after)[:300], stderr=p.err.decode("latin1")[-300:])
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(do, jobs))
    # a resumed download that is interrupted again keeps every complete range
    for kind, n, w in (("sha1", 20, 24), ("ntlm", 16, 20), ("sha1t64", 20, 12)):
        d, ranges = dirs[n]
        full = expect(ranges, kind, False)
        flag = [] if kind == "sha1" else [f"--{kind}"]
        for cut in range(1, 9):
            keep = full[:w * (3 if cut < 5 else 5)] if cut >= 3 else b""
            for fail in ({2: ["err:0"] * 7}, {0: ["err:0"] * 7, 1: ["err:9"] * 7, 2: ["st:500:9"] * 7}):
                f = r.write("db", full[:cut * w + rng.randrange(w)])
                before = read(f)
                p, log = go(r, exe, d, f, flag + ["--resume", "--limit", "3"], fail=fail)
                got = read(f) or b""
                r.case(("resume fails", kind, cut, str(fail)))
                if sanitizer(p) or not got.startswith(keep) or not full.startswith(got) or p.returncode == 0:
                    r.fail(f"resume {kind} of {cut} records with a failing service lost complete ranges (exit {p.returncode}, "
                           f"{len(got)} bytes left of {len(before)}) {sanitizer(p) or ''}", log=log[:30])
