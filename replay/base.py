"""Native replay: builds the real sources with g++ in a scratch directory and runs them on concrete inputs."""
import concurrent.futures as cf
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

REPO = os.environ.get("HIBP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIBS = {"search": [], "server": ["-lhttp_parser", "-pthread"], "download": ["-lcurl", "-levent", "-levent_pthreads", "-pthread"]}
SRCS = {
    "search": ["app/hibp_search.cpp", "src/toc.cpp", "src/ntlm.cpp"],
    "server": ["app/hibp_server.cpp", "src/srv/server.cpp", "src/toc.cpp", "src/ntlm.cpp"],
    "download": ["app/hibp_download.cpp", "src/dnl/queuemgt.cpp", "src/dnl/requests.cpp", "src/dnl/resume.cpp",
                 "src/dnl/shared.cpp"],
    "diff": ["app/hibp_diff.cpp", "src/diffutils.cpp"],
    "sort": ["app/hibp_sort.cpp"], "topn": ["app/hibp_topn.cpp"], "convert": ["app/hibp_convert.cpp"],
    "dupes": ["app/hibp_dupes.cpp"],
}
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment", "-fno-omit-frame-pointer"]


class Skip(Exception):
    pass


class R:
    def __init__(self, prop, tier, seed, scratch, limit):
        self.prop, self.tier, self.seed, self.limit = prop, tier, seed, limit
        self.dir = os.path.join(scratch, "replay")
        os.makedirs(self.dir, exist_ok=True)
        self.rng = random.Random(f"{prop}-{seed}")
        self.t0 = time.time()
        self.fails, self.notes, self.samples = [], [], []
        self.evals = 0
        self.distinct = set()
        self.ndistinct = 0
        self.rule = ""
        self.built = {}
        self.n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        return self.limit - (time.time() - self.t0)

    def note(self, s):
        if s not in self.notes and len(self.notes) < 30:
            self.notes.append(s)

    def fail(self, title, key=None, **data):
        if len(self.fails) < 20:
            self.fails.append({"title": title, "key": key, **data})

    def case(self, desc, nontrivial=True):
        """count one evaluation"""
        self.evals += 1
        if nontrivial:
            self.distinct.add(hashlib.md5(repr(desc).encode()).hexdigest())
        if len(self.samples) < 8 and (self.evals < 4 or self.evals % 37 == 0):
            self.samples.append(str(desc)[:300])

    # -------------------------------------------------------------- building
    def compile(self, out, srcs, flags=(), libs=(), san=True, opt="-O1", ndebug=True):
        o = os.path.join(self.dir, out)
        flags = ["-std=c++20", opt, "-g0", "-w", "-DFMT_SHARED", f"-I{REPO}/include", f"-I{VERIF}/shim"] + \
            (["-DNDEBUG"] if ndebug else []) + (SAN if san else []) + list(flags)
        objs = []
        jobs = []
        for s in srcs:
            s = s if s.startswith("/") else os.path.join(REPO, s)
            ob = os.path.join(self.dir, out + "-" + os.path.basename(s) + ".o")
            objs.append(ob)
            cmd = (["gcc"] + [f for f in flags if not f.startswith("-std")] if s.endswith(".c") else ["g++"] + flags) + \
                ["-c", s, "-o", ob]
            jobs.append(cmd)
        with cf.ThreadPoolExecutor(4) as p:
            rs = list(p.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs))
        for c, r in zip(jobs, rs):
            if r.returncode:
                raise Skip(f"{out}: {' '.join(c[-4:])}: {r.stderr[:600]}")
        r = subprocess.run(["g++"] + (SAN if san else []) + objs + ["-lfmt"] + list(libs) + ["-o", o],
                           capture_output=True, text=True)
        if r.returncode:
            raise Skip(f"{out}: link: {r.stderr[:600]}")
        return o

    def app(self, name, san=True, flags=(), tag=""):
        k = f"hibp-{name}{'' if san else '-plain'}{tag}"
        if k not in self.built:
            srcs = list(SRCS[name])
            if name in ("search", "server", "convert"):
                srcs.append("src/md4.c") if name != "convert" else None
            self.built[k] = self.compile(k, [s for s in srcs if s], flags=flags,
                                         libs=["-lCLI11"] * 0 + LIBS.get(name, []), san=san)
        return self.built[k]

    def unit(self, name, srcs=(), san=True, flags=(), libs=(), ndebug=True, tag=""):
        """compile /verif/replay/src/<name>.cpp with real sources"""
        k = f"unit-{name}{'' if san else '-plain'}{tag}"
        if k not in self.built:
            self.built[k] = self.compile(k, [os.path.join(VERIF, "replay", "src", name + ".cpp")] + list(srcs),
                                         flags=flags, libs=libs, san=san, ndebug=ndebug)
        return self.built[k]

    # -------------------------------------------------------------- running
    def run(self, cmd, input=None, timeout=60, cwd=None, env=None, fsize=1 << 31, nofile=None):
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99",
                 UBSAN_OPTIONS="print_stacktrace=0:exitcode=98", LC_ALL="C")
        e.update(env or {})

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            if nofile is not None:
                resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd or self.dir, env=e,
                             preexec_fn=pre)
        try:
            out, err = p.communicate(input, timeout=timeout)
            p.out, p.err, p.timed_out = out, err, False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            p.out, p.err, p.timed_out = out, err, True
        return p

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, f"{self.n}-{name}")

    def write(self, name, data):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return p

    def finish(self, out):
        json.dump({"evals": self.evals, "nontrivial": len(self.distinct) + self.ndistinct, "samples": self.samples, "fails": self.fails,
                   "notes": self.notes, "rule": self.rule, "wall_s": round(time.time() - self.t0, 1)},
                  open(out + ".tmp", "w"), default=str)
        os.replace(out + ".tmp", out)


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def sanitizer(p):
    """crash / sanitizer report of a finished process, or None"""
    e = p.err.decode("latin1")
    if p.timed_out:
        return "does not terminate (killed after the time limit)"
    if "AddressSanitizer" in e or "runtime error:" in e:
        i = max(e.find("AddressSanitizer"), 0) or max(e.find("runtime error"), 0)
        return e[max(0, i - 80):i + 300]
    if p.returncode is not None and p.returncode < 0:
        return f"killed by signal {-p.returncode}: {e[-200:]}"
    if "Assertion" in e and "failed" in e:
        return e[-300:]
    return None


# ------------------------------------------------------------------ records and databases
SIZES = {"sha1": 20, "ntlm": 16, "sha1t64": 8}


def rec(h, c):
    return h + (c & 0xffffffff).to_bytes(4, "little")


def db(recs):
    return b"".join(rec(h, c) for h, c in recs)


def parse(data, n):
    return [(data[i:i + n], int.from_bytes(data[i + n:i + n + 4], "little")) for i in range(0, len(data), n + 4)]


def text(recs):
    return "".join(f"{h.hex().upper()}:{c}\n" for h, c in recs).encode()


def rand_hash(rng, n, style=None):
    style = style or rng.choice(["rand", "rand", "zero", "ff", "low", "pre", "sign"])
    if style == "rand":
        return rng.randbytes(n)
    if style == "zero":
        return bytes(n - 1) + bytes([rng.randrange(4)])
    if style == "ff":
        return b"\xff" * (n - 1) + bytes([255 - rng.randrange(4)])
    if style == "low":
        return bytes(n - 2) + rng.randbytes(2)
    if style == "pre":
        return rng.choice([b"\x00", b"\x7f", b"\x80", b"\xff"]) * (n // 2) + rng.randbytes(n - n // 2)
    b = bytearray(rng.randbytes(n))
    for i in range(n):
        if rng.random() < .5:
            b[i] = rng.choice([0, 0x7f, 0x80, 0xff])
    return bytes(b)


def rand_count(rng):
    return rng.choice([1, 2, 3, 9, 10, 99, 100, 2**31 - 1, rng.randrange(1, 50), rng.randrange(1, 10**7)])


def sorted_recs(rng, n, k, style=None):
    hs = set()
    while len(hs) < k:
        hs.add(rand_hash(rng, n, style) if rng.random() < .98 or style else rng.randbytes(n))
        if style and len(hs) < k and rng.random() < .3:
            hs.add(rng.randbytes(n))
    return [(h, rand_count(rng)) for h in sorted(hs)]


def main():
    prop, tier, seed, scratch, out, limit = sys.argv[1:7]
    r = R(prop, tier, int(seed), scratch, float(limit))
    try:
        m = importlib.import_module(f"replay.{prop}")
        r.rule = getattr(m, "RULE", "")
        m.run(r)
    except Skip as e:
        r.note(f"skipped: {e}")
    except Exception:
        r.note("replay harness error: " + traceback.format_exc()[-1200:])
    r.finish(out)


if __name__ == "__main__":
    main()
