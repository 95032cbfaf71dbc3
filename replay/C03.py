from .unitrun import run_unit
RULE = "valid strings of every length 0..89, every byte value at every position of a full-length string, random corruption"


def run(r):
    run_unit(r, "u_record", filt=lambda s: s.startswith("is_valid_hash"))
