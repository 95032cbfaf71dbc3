from .base import *
from .unitrun import run_unit
RULE = ("0..7 records x chunk sizes 1..4, random sizes to 120, chunk and buffer boundaries at 1000/1250/2500, more than 255 "
        "chunks, ties and duplicates, both orders, in process; plus the sort tool itself on a 1 MB-chunk database")


def run(r):
    run_unit(r, "u_sort", args=[r.dir], limit=60 if r.thorough else 15)
    run_unit(r, "u_sort", args=[r.dir], limit=3, flags=["-D_GLIBCXX_DEBUG"], tag="-stl-preconditions", san=False)
    exe = r.app("sort")
    for kind, n in (("sha1", 20), ("ntlm", 16)):
        per = 1024 * 1024 // (n + 4)
        for k, mem, bc in ((0, 1, False), (1, 1, True), (500, 0, False), (per + 3, 1, False), (2 * per + 1, 1, True)):
            if k > per and r.left() < 15:
                r.note("time is up")
                return
            recs = [(r.rng.randbytes(n), r.rng.randrange(1, 1000)) for _ in range(k)]
            f = r.write(f"{kind}.bin", db(recs))
            p = r.run([exe, "-i", f, "--max-memory", str(mem)] + (["--ntlm"] if kind == "ntlm" else []) +
                      (["--sort-by-count"] if bc else []))
            r.case((kind, k, mem, bc))
            s = sanitizer(p)
            want = db(sorted(recs, key=(lambda x: (-x[1], x[0])) if bc else (lambda x: x[0])))
            out = read(f + ".sorted")
            left = [x for x in os.listdir(r.dir) if ".partial." in x]
            if s:
                r.fail(f"hibp-sort {kind}, {k} records, --max-memory {mem}{' by count' if bc else ''}: {s}", records=k)
            elif mem > 0 and (p.returncode != 0 or out != want):
                r.fail(f"hibp-sort {kind}, {k} records, --max-memory {mem}{' by count' if bc else ''}: wrong output "
                       f"(exit {p.returncode}, {p.err[-200:]})", seed=r.seed)
            elif left or read(f) != db(recs):
                r.fail(f"hibp-sort {kind}: files left {left} or input changed", records=k)
            for x in left:
                os.unlink(os.path.join(r.dir, x))
            for cap in (() if k > 600 or k < 500 else (0, 1, n + 4, (n + 4) * 400)):  # output that does not fit
                if os.path.exists(f + ".sorted"):
                    os.unlink(f + ".sorted")
                p = r.run([exe, "-i", f] + (["--ntlm"] if kind == "ntlm" else []), fsize=cap)
                r.case((kind, k, "full", cap))
                if sanitizer(p) or p.returncode == 0:
                    r.fail(f"hibp-sort {kind}, {k} records, disk full after {cap} bytes: reported success", stderr=repr(p.err[-300:]))
                for x in os.listdir(r.dir):
                    if ".partial." in x:
                        os.unlink(os.path.join(r.dir, x))
