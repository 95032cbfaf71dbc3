from .unitrun import run_unit
RULE = "0..39 records, buffers 1..12, random flushes, moves of the writer, full streams, five record types"


def run(r):
    run_unit(r, "u_flat", args=[r.dir, "writer"], limit=60 if r.thorough else 10)
