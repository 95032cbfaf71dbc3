from .unitrun import run_unit
RULE = "0..13 records x buffers 1..8 for five record types, then random sizes; 60 random steps over three live iterators each"


def run(r):
    run_unit(r, "u_flat", args=[r.dir, "db"], limit=60 if r.thorough else 12, libs=[])
