"""run a native unit and collect its reports"""
import os
from .base import sanitizer


def run_unit(r, name, args=(), srcs=(), flags=(), san=True, tag="", limit=20, libs=(), timeout=None, filt=None):
    exe = r.unit(name, srcs=srcs, flags=flags, san=san, tag=tag, libs=libs)
    p = r.run([exe, str(r.seed), str(limit)] + list(args), timeout=timeout or limit * 4 + 60)
    n = 0
    for l in p.out.decode("latin1").splitlines():
        if l.startswith("FAIL "):
            if filt and not filt(l[5:]):
                continue
            r.fail(f"{name}{tag}: {l[5:]}", key=None, unit=name, args=list(args), flags=list(flags), detail=l[5:])
        elif l.startswith("KFAIL "):
            _, key, rest = l.split(" ", 2)
            r.fail(f"{name}{tag}: {rest}", key=key, unit=name, args=list(args), detail=rest)
        elif l.startswith("EVALS "):
            n = int(l.split()[1])
        elif l.startswith("CASE "):
            if len(r.samples) < 8:
                r.samples.append(l[5:300])
        elif l.startswith("DISTINCT "):
            r.ndistinct += int(l.split()[1])
    r.evals += n
    s = sanitizer(p)
    if s:
        r.fail(f"{name}{tag}: {s}", unit=name, args=list(args), flags=list(flags), report=s)
    return p
