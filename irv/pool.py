"""Compile the units a check needs from /repo's working tree and run its targets in forked processes."""
import concurrent.futures as cf
import json
import os
import select
import signal
import sys
import time
from . import build
from .targets import run_target


def compile_units(units, scratch, jobs):
    """{name: (src, extra flags, lang)} -> ({name: Module}, {name: error})"""
    mods, errs = {}, {}

    def one(kv):
        n, (src, extra, lang) = kv
        out = os.path.join(scratch, n.replace("/", "_") + ".ll")
        try:
            build.compile_ll(src, out, extra, lang)
            return n, out, None
        except Exception as e:
            return n, None, str(e)
    with cf.ThreadPoolExecutor(jobs) as p:
        for n, out, e in p.map(one, units.items()):
            if e:
                errs[n] = e
            else:
                try:
                    mods[n] = build.load(out)
                except Exception as x:
                    errs[n] = f"IR parse: {x}"
    return mods, errs


def run_targets(targets, mods, errs, jobs, deadline, log):
    results, pend, live = [], list(targets), {}
    pend.sort(key=lambda t: -t.kw.get("_w", 0) if False else 0)
    while pend or live:
        while pend and len(live) < jobs:
            t = pend.pop(0)
            bad = [u for u in t.units if u not in mods]
            if bad:
                results.append({"target": t.name, "status": "build", "level": t.level,
                                "detail": "\n".join(errs.get(b, "?")[-1500:] for b in bad),
                                "obligations": 0, "discharged": 0, "failed": []})
                continue
            left = deadline - time.time()
            if left < 3:
                results.append({"target": t.name, "status": "timeout", "detail": "no time left", "level": t.level,
                                "obligations": 0, "discharged": 0, "failed": []})
                continue
            t.budget = min(t.budget, left)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    run_target(t, mods, w)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    os._exit(3)
                os._exit(0)
            os.close(w)
            live[r] = (t, pid, time.time(), [])
        if not live:
            continue
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rd:
            t, pid, t0, buf = live[fd]
            d = os.read(fd, 1 << 16)
            if d:
                buf.append(d)
                continue
            os.close(fd)
            del live[fd]
            _, rc = os.waitpid(pid, 0)
            try:
                res = json.loads(b"".join(buf))
            except Exception:
                res = {"target": t.name, "status": "timeout" if os.WIFSIGNALED(rc) else "error", "level": t.level,
                       "detail": f"verifier process ended with status {rc}", "obligations": 0, "discharged": 0,
                       "failed": []}
            log(f"  [{res['status']:>11}] {t.name}: {res['discharged']}/{res['obligations']} "
                f"obligations, {time.time() - t0:.1f}s"
                + (f" -- {res['detail'].strip().splitlines()[-1][:200]}" if res.get("detail") else ""))
            results.append(res)
        now = time.time()
        for fd, (t, pid, t0, buf) in list(live.items()):
            if now > t0 + t.budget + 20 or now > deadline + 15:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
    return results
