from .unitrun import run_unit
RULE = ("sorted databases over 1..3000 dense prefixes (full, partial, with a gap) for 11 prefix widths and three record kinds, "
        "rebuilt repeatedly in one process; all or ~150 records, one-bit neighbours, prefix edges and random needles queried")


def run(r):
    run_unit(r, "u_toc", args=[r.dir], srcs=["src/toc.cpp"], limit=90 if r.thorough else 25)
