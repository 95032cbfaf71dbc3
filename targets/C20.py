"""C20: whatever a file or a response contains, nothing outside an object is read or written, nothing is divided by zero and
no tool ends by a signal.

The functions that handle input, verified for accesses within objects and the other causes of undefined behaviour only: what
the contracts of the other properties say about results is not asked for here.  Where those contracts presuppose a sorted
database or a table that belongs to it, nothing is presupposed here ("wild": their other obligations are neither checked nor
assumed).  Elsewhere they hold for every input as they stand, and they are checked, because the rest may rest on them; one of
them that fails leaves this property undecided, it is not reported for it."""
import re
from irv.targets import Target
from . import C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19

MODS = [C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19]
WILD = {C02: r"\(text\)", C08: r"", C06: r"^run_search", C07: r"^toc_search|^build", C15: r"^get_last", C16: r"^run_diff"}
SKIP = {C02: r"identity", C06: r"lower_bound", C16: r"missing|lemma", C18: r"^files that"}
UNITS, TARGETS = {}, []
TRUSTED = sorted({t for m in MODS for t in getattr(m, "TRUSTED", [])})
ASSUMPTIONS = sorted({t for m in MODS for t in getattr(m, "ASSUMPTIONS", [])})
for m in MODS:
    # as released: assertions are left out
    UNITS.update({k: (v[0], [*v[1], "-DNDEBUG"], *v[2:]) for k, v in m.UNITS.items()})
    for t in m.TARGETS:
        if not t.units or m in SKIP and re.search(SKIP[m], t.name):
            continue
        mode = "wild" if m in WILD and re.search(WILD[m], t.name) else "check"
        TARGETS.append(Target(t.name, t.units, t.fn, budget=t.budget, tier=t.tier, level=t.level, safety=mode, **t.kw))
