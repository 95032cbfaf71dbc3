"""the real HTTP server on a loopback port against an independent lookup"""
import http.client
import socket
import urllib.parse
from .base import *
from .oracle import nthash
RULE = ("every record, its neighbours and random hashes of databases of 1..500 records, plain and by hash, for every subset of the "
        "three databases, text and JSON, with and without table of contents, 1..4 server threads, 6 concurrent keep-alive "
        "clients; malformed hashes, unknown formats and paths; non-trivial: a distinct request/configuration")
N = {"sha1": 20, "ntlm": 16, "sha1t64": 8}


def sha1(p):
    return hashlib.sha1(p).digest()


def neigh(h):
    v, n = int.from_bytes(h, "big"), len(h)
    return [((v + d) % (1 << 8 * n)).to_bytes(n, "big") for d in (-1, 1, 1 << 8 * (n - 1))]


def run(r):
    exe = r.app("server")
    rng = r.rng
    pws = [b"password", b"123456", b"a", b"x" * 55, b"x" * 56, b"x" * 64, b"hunter2", b"caf\xc3\xa9", b"p w", b"50%", b"a/b", b"q?x=1#y",
           b"a+b", b"\xe2\x82\xac\xf0\x9f\x98\x80", b"%41", b"~._-", b"tom&jerry;", b"\"<>{}|\\^`[]"]
    never = [b"not in there", b"Password", b"passwor", b"%20"]

    def mk(kind, k, dense):
        n = N[kind]
        hs = {}
        if dense:
            for p in range(k):
                for _ in range(rng.randrange(1, 3)):
                    hs[((p << 17) | rng.randrange(1 << 17)).to_bytes(4, "big") + rng.randbytes(n - 4)] = rand_count(rng)
            return sorted(hs.items())
        for p in pws:
            h = nthash(p.decode()) if kind == "ntlm" else sha1(p)[:n]
            hs[h] = rand_count(rng)
        while len(hs) < k:
            hs[rand_hash(rng, n)] = rng.choice([rand_count(rng), 0])
        return sorted(hs.items())

    configs = []
    subsets = [[k for i, k in enumerate(N) if s >> i & 1] for s in range(1, 8)]
    for s in subsets:
        configs.append((s, rng.choice([20, 200, 500]), False, rng.random() < .5, rng.choice([1, 2, 4])))
    configs.append((["sha1", "ntlm", "sha1t64"], 60, True, False, 4))
    configs.append((["sha1", "ntlm", "sha1t64"], 5, True, True, 1))
    if r.thorough:
        configs = configs * 4

    def start(args):
        for _ in range(5):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            port = s.getsockname()[1]
            s.close()
            ef = open(r.path("err"), "w+b")
            e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=0:exitcode=98")
            p = subprocess.Popen([exe] + args + ["--bind-address", "127.0.0.1", "--port", str(port)], stdout=ef, stderr=ef,
                                 stdin=subprocess.DEVNULL, env=e, cwd=r.dir, start_new_session=True)
            for _ in range(200):
                if p.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", port), 1).close()
                    return p, port, ef
                except OSError:
                    time.sleep(.05)
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        ef.seek(0)
        return None, ef.read()[-400:], None

    for kinds, k, toc, js, threads in configs:
        if r.left() < 6:
            r.note("time is up before all configurations ran")
            return
        dbs = {kd: mk(kd, k, toc) for kd in kinds}
        args = ["--threads", str(min(threads, os.cpu_count() or 1))] + (["--json"] if js else []) + (["--toc", "--toc-bits", "15"] if toc else [])
        for kd in kinds:
            args += [f"--{kd}-db", r.write(f"{kd}.bin", db(dbs[kd]))]
        conf = f"databases {kinds} of {[len(d) for d in dbs.values()]} records, toc={toc}, json={js}, {threads} threads"
        p, port, ef = start(args)
        if p is None:
            r.fail(f"server with {conf} does not start: {port!r}")
            continue
        reqs = []        # (path, expected count or None for an error status)
        pk = "sha1" if "sha1" in kinds else "ntlm" if "ntlm" in kinds else "sha1t64"
        pd = dict(dbs[pk])
        for w in pws + never + [rng.choice([b"%d", b"pw%d", b"z%d"]) % rng.randrange(10**6) for _ in range(8)]:
            h = nthash(w.decode()) if pk == "ntlm" else sha1(w)[:N[pk]]
            for quoted in {urllib.parse.quote(w, safe=""), urllib.parse.quote(w, safe="~!$&'()*+,;=:@")}:
                reqs.append(("/check/plain/" + quoted, pd.get(h, -1)))
        for kd in N:
            if kd not in kinds:
                reqs.append((f"/check/{kd}/{rng.randbytes(N[kd]).hex().upper()}", None))
                continue
            d = dict(dbs[kd])
            hs = list(d) if len(d) < 120 else rng.sample(list(d), 100) + [min(d), max(d)]
            for h in hs:
                reqs.append((f"/check/{kd}/{h.hex().upper()}", d[h]))
                for m in neigh(h)[:3 if r.thorough else 1 + (h == min(d) or h == max(d))]:
                    reqs.append((f"/check/{kd}/{m.hex().upper()}", d.get(m, -1)))
            for h in (bytes(N[kd]), b"\xff" * N[kd], rng.randbytes(N[kd])):
                reqs.append((f"/check/{kd}/{h.hex().upper()}", d.get(h, -1)))
            g = max(d).hex().upper()
            for bad in (g[:-1], g + "0", g.lower() if g.lower() != g else "a" * len(g), g[:-1] + "G", g[:-1] + ":", g + g, "0", "x" * len(g), g[:-3] + "%30",
                        "0" * (len(g) - 1) + "-"):
                reqs.append((f"/check/{kd}/{bad}", None))
        for path in ("/check/md5/" + "0" * 32, "/check/SHA1/" + "0" * 40, "/check/plainx/a", "/", "/check", "/check/sha1", "/check/sha1/",
                     "/check/plain/a/b", "/foo/plain/a"):
            reqs.append((path, None))
        rng.shuffle(reqs)
        bad = []

        def client(part):
            c = None
            for path, want in part:
                if len(bad) > 5:
                    return
                for attempt in range(2):
                    try:
                        if c is None:
                            c = http.client.HTTPConnection("127.0.0.1", port, timeout=20)
                        c.request("GET", path)
                        a = c.getresponse()
                        body = a.read()
                        if a.will_close:
                            c.close()
                            c = None
                        break
                    except Exception as e:
                        c = None
                        if attempt:
                            bad.append((path, want, f"no answer: {e!r}"))
                            return
                r.case((conf, path))
                ct = a.getheader("content-type") or ""
                if want is None:
                    if a.status < 400 or a.status > 599:
                        bad.append((path, "an error status", f"{a.status} {body!r}"))
                    elif a.status >= 500:
                        bad.append((path, "a client error status", f"{a.status} {body!r}"))
                else:
                    ok = [f"{want}\n".encode()] if not js else [f"{{count:{want}}}\n".encode(), f"{{\"count\":{want}}}\n".encode()]
                    if a.status != 200 or body not in ok or ("json" in ct) != js:
                        bad.append((path, want, f"{a.status} {ct} {body!r}"))
        with cf.ThreadPoolExecutor(6) as ex:
            list(ex.map(client, [reqs[i::6] for i in range(6)]))
        dead = p.poll()
        try:
            os.killpg(p.pid, signal.SIGTERM)
            p.wait(10)
        except Exception:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        ef.seek(0)
        p.err, p.timed_out = ef.read(), False
        if dead is not None or b"AddressSanitizer" in p.err or b"runtime error:" in p.err:
            r.fail(f"server with {conf} ends by itself: {sanitizer(p) or dead}", requests=[x[0] for x in reqs[:40]])
        for path, want, got in bad[:4]:
            r.fail(f"server with {conf}: GET {path} expected {want}, got {got}",
                   db_hex={kd: db(d).hex()[:4000] for kd, d in dbs.items()})
