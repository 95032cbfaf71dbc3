"""Base name of a demangled C++ function: qualified name without template arguments, parameters, return type."""
import re
from functools import lru_cache

_OPS = ["operator<=>", "operator<<=", "operator>>=", "operator->*", "operator<<", "operator>>", "operator<=",
        "operator>=", "operator->", "operator<", "operator>", "operator()"]


@lru_cache(maxsize=None)
def basename(d):
    s = d.replace("std::__cxx11::", "std::").replace("[abi:cxx11]", "").replace("(anonymous namespace)", "anon")
    s = re.sub(r"\[abi:\w+\]", "", s)
    s = s.replace("decltype(auto)", "auto").replace("'lambda", "{lambda")
    # protect operators
    for i, o in enumerate(_OPS):
        s = s.replace(o, f"\x01{chr(65 + i)}")
    out = []
    da = dp = db = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == "-" and i + 1 < n and s[i + 1] == ">":
            i += 2
            continue
        if c == "<":
            da += 1
        elif c == ">":
            da -= 1
        elif c == "(":
            if da == 0 and db == 0:
                dp += 1
                if dp == 1:
                    out.append("\x02")
            else:
                dp += 1
        elif c == ")":
            dp -= 1
        elif c == "{" and da == 0 and dp == 0:
            db += 1
            if db == 1:
                out.append("{}")
        elif c == "}" and db:
            db -= 1
        elif da == 0 and dp == 0 and db == 0:
            out.append(c)
        i += 1
    t = "".join(out)
    t = re.sub(r"\x02 const", "\x02", t)
    t = re.sub(r"\x02( &&| &| noexcept| requires.*)+$", "\x02", t)
    # parameters = last \x02; drop all
    j = t.rfind("\x02")
    if j >= 0:
        t = t[:j]
    t = t.replace("\x02", "")
    # return type: last depth-0 space (keep 'operator new' etc.)
    t = re.sub(r"operator (\w+)", lambda m: "operator~" + m.group(1), t)
    t = t.strip()
    if " " in t:
        t = t.split(" ")[-1]
    t = t.replace("~new", " new").replace("~delete", " delete") if "operator~" in t else t
    t = t.replace("operator~", "operator ")
    for i, o in enumerate(_OPS):
        t = t.replace(f"\x01{chr(65 + i)}", o)
    return t
