"""Compile real sources to LLVM IR (in a scratch directory) and load them."""
import hashlib
import os
import subprocess
from .irparse import Module

REPO = os.environ.get("HIBP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXXFLAGS = ["-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-fno-discard-value-names",
            "-DFMT_SHARED", "-D_GLIBCXX_ASSERTIONS", f"-I{REPO}/include", f"-I{VERIF}/shim", f"-I{REPO}"]


class BuildError(Exception):
    pass


def compile_ll(src, out, extra=(), lang="c++"):
    if src.startswith("/repo/"):
        src = REPO + src[5:]
    if lang == "c++":
        cmd = ["clang++-18"] + CXXFLAGS + list(extra) + ["-S", "-emit-llvm", src, "-o", out]
    else:
        cmd = ["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", f"-I{REPO}/include", f"-I{REPO}",
               "-fno-discard-value-names"] + list(extra) + ["-S", "-emit-llvm", src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stderr[-3000:])
    return out


def load(path):
    return Module(open(path).read(), path)
