from .unitrun import run_unit
RULE = ("every byte position x 49 byte pairs around the sign and carry boundaries with random tails, plus seeded random "
        "pairs, for 47 array lengths and all record kinds, per instruction set; non-trivial: the two arrays differ in exactly "
        "one byte or in all bytes from a position on")


def run(r):
    cpu = open("/proc/cpuinfo").read()
    for tag, flags in (("", []), ("-avx2", ["-mavx2"]), ("-avx512", ["-mavx512f", "-mavx512bw"])):
        if tag == "-avx2" and " avx2 " not in cpu or tag == "-avx512" and " avx512bw" not in cpu:
            r.note(f"this CPU lacks{tag}: not replayed natively")
            continue
        run_unit(r, "u_arrcmp", flags=flags, tag=tag, san=False)
