from .unitrun import run_unit
RULE = "every byte value at every hash position, 16 boundary counts, three letter-case mixes, 20000 random records per kind"


def run(r):
    run_unit(r, "u_record", filt=lambda s: not s.startswith("is_valid_hash"))
