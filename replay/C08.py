"""saved tables of contents: reuse, staleness, widths, interrupted saves"""
import shutil
import signal
from .base import *
from .C06 import ask, neighbours

RULE = ("histories of build / reuse / modify / age / other width over small sorted databases, and a save cut off (killed, or "
        "failing writes) at every 4-byte and some odd offsets, each followed by lookups; non-trivial: a distinct history or cut")


def table(recs, bits):
    pre = [int.from_bytes(h[:4], "big") >> (32 - bits) for h, _ in recs]
    out, seen = [], -1
    for i, p in enumerate(pre):
        if p != seen:
            assert p == seen + 1
            out.append(i)
            seen = p
    return b"".join(i.to_bytes(4, "little") for i in out)


def mkdb(rng, n, bits, prefixes, per=3):
    hs = {}
    for p in range(prefixes):
        for _ in range(rng.randrange(1, per + 1)):
            v = (p << (32 - bits)) | rng.choice([0, (1 << (32 - bits)) - 1, rng.randrange(1 << (32 - bits))])
            hs[v.to_bytes(4, "big") + rng.randbytes(n - 4)] = rand_count(rng)
    return sorted(hs.items())


def lookup(r, exe, f, fl, recs, bits, hist, full=False):
    d = dict(recs)
    qs = [recs[0][0], recs[-1][0], recs[len(recs) // 2][0], recs[-1 - len(recs) // 3][0], neighbours(recs[-1][0])[1]]
    if full:
        qs = list(d)
    for q in qs:
        p, s, needle, found, nf = ask(r, exe, f, q.hex().upper(), fl + ["--hash", "--toc", "--toc-bits", str(bits)])
        want = f"{q.hex().upper()}:{d[q]}" if q in d else None
        if s or found != want or nf != (want is None):
            r.fail(f"toc lookup after [{hist}]: query {q.hex().upper()} expected {want or 'not found'}, got "
                   f"{found or ('not found' if nf else p.err[-200:])} {s or ''}", history=hist, bits=bits,
                   db_hex=db(recs).hex()[:8000], saved=(read(f"{f}.{bits}.toc") or b"").hex()[:4000])
            return False
    return True


def cut_run(r, exe, f, fl, bits, k, die):
    """run a lookup whose file writes stop after k bytes"""
    def pre():
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not die:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        else:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    return subprocess.run([exe, f, "00" * 8, "--toc", "--toc-bits", str(bits)] + fl, stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL, preexec_fn=pre, restore_signals=False)


def run(r):
    exe = r.app("search", san=False)
    for kind, n in (("sha1", 20), ("sha1t64", 8), ("ntlm", 16)):
        fl = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}[kind]
        for bits, prefixes in ((15, 9), (16, 5), (20, 40)):
            recs = mkdb(r.rng, n, bits, prefixes)
            f = r.write(f"{kind}.bin", db(recs))
            t = f"{f}.{bits}.toc"
            hist = "build"
            lookup(r, exe, f, fl, recs, bits, hist)
            r.case((kind, bits, hist))
            if read(t) != table(recs, bits):
                r.fail(f"saved table wrong after a build, {kind} bits {bits}", saved=(read(t) or b"").hex(),
                       expected=table(recs, bits).hex(), db_hex=db(recs).hex())
            now = time.time()
            os.utime(f, (now - 100, now - 100))
            lookup(r, exe, f, fl, recs, bits, hist + ", reuse", full=True)
            os.utime(t, (now - 50, now - 50))
            # the saved table must really be loaded and not touched
            before = os.stat(t).st_mtime_ns, read(t)
            # ... and a saved table that cannot be read is an error, not an empty table: no file can be opened after the db
            for q in (recs[len(recs) // 2], recs[len(recs) // 3]):
                p = r.run([exe, f, q[0].hex().upper()] + fl + ["--hash", "--toc", "--toc-bits", str(bits)], nofile=4)
                r.case((kind, bits, "unreadable", q[0]))
                want = f"found  = {q[0].hex().upper()}:{q[1]}".encode()
                if p.returncode == 0 and want not in p.out:
                    r.fail(f"a saved table that cannot be opened was used as if it were empty, {kind} bits {bits}: query "
                           f"{q[0].hex().upper()} answered not found", db_hex=db(recs).hex()[:8000])
            lookup(r, exe, f, fl, recs, bits, hist + ", reuse aged")
            r.case((kind, bits, "reuse"))
            if (os.stat(t).st_mtime_ns, read(t)) != before:
                r.note("an up-to-date saved table was rebuilt (allowed)")
            for dt, name in ((-50, "modified at the same time"), (-20, "modified later")):
                recs = mkdb(r.rng, n, bits, max(1, prefixes + r.rng.randrange(-3, 4)))
                open(f, "wb").write(db(recs))
                os.utime(f, (now + dt, now + dt))
                os.utime(t, (now - 50, now - 50))
                lookup(r, exe, f, fl, recs, bits, f"build, {name}, lookup", full=True)
                r.case((kind, bits, name))
                if read(t) != table(recs, bits):
                    r.fail(f"stale table kept: database {name}, {kind} bits {bits}", saved=(read(t) or b"").hex())
            # other width beside it (only if dense at that width)
            lookup(r, exe, f, fl, recs, bits, "before other width")
            recs2 = mkdb(r.rng, n, bits + 1, 7)
            g = r.write(f"{kind}-w.bin", db(recs2))
            for b in (bits + 1, bits, bits + 1):
                lookup(r, exe, g, fl, recs2, b, f"widths {bits + 1},{bits},{bits + 1} at {b}", full=True)
                r.case((kind, bits, "width", b))
                if read(f"{g}.{b}.toc") != table(recs2, b):
                    r.fail(f"table of width {b} wrong next to another width", saved=(read(f"{g}.{b}.toc") or b"").hex())
            # interrupted saves
            size = len(table(recs, bits))
            cuts = sorted({0, 1, 2, 3, 4, 6, size - 1, size - 4, size // 2, size} | set(range(0, size, 4 if r.thorough else 16)))
            for k in cuts:
                for die in (True, False):
                    if r.left() < 3:
                        return
                    os.utime(f, (now - 30, now - 30))
                    for x in os.listdir(os.path.dirname(f)):
                        if x.startswith(os.path.basename(f) + "."):
                            os.unlink(os.path.join(os.path.dirname(f), x))
                    if r.rng.random() < .5:   # an older complete table is there already
                        open(t, "wb").write(b"\0" * 8)
                        os.utime(t, (now - 60, now - 60))
                    cut_run(r, exe, f, fl, bits, max(0, k), die)
                    r.case((kind, bits, "cut", k, die))
                    h = f"save {'killed' if die else 'failing'} after {k} of {size} bytes, then lookup"
                    if read(t) not in (None, table(recs, bits), b"\0" * 8):
                        r.fail(f"{h}: a partial file was left as the saved table", saved=(read(t) or b"").hex(),
                               bits=bits, kind=kind, db_hex=db(recs).hex()[:8000])
                        break
                    if not lookup(r, exe, f, fl, recs, bits, h):
                        break
