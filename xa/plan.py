"""Which suites decide which property."""
from . import build

OPS_ALL = ("strong", "weak", "alias", "cast", "shared_from", "storage", "storage_life")
Q = ("query",)


def H(groups, fams):
    return [("handles", {"fam": f, "groups": groups}) for f in fams]


def C(fams):
    return [("create", {"fam": f}) for f in fams]


UQ = [("unique", {})]


def base(prop):
    return table()[prop]


def table():
    t = {
        "C01": H(OPS_ALL + Q, "LA"),
        "C02": H(OPS_ALL, "LA"),
        "C03": H(OPS_ALL, "LA"),
        "C04": H(OPS_ALL, "LA"),
        "C05": H(("weak", "shared_from"), "LTA"),
        "C06": H(OPS_ALL + Q, "A") + [("counters", {})],
        "C07": H(OPS_ALL, "A"),
        "C08": [("counters", {})],
        "C09": H(OPS_ALL, "T"),
        "C10": H(("strong", "alias"), "LTA"),
        "C12": H(OPS_ALL + Q, "LA"),
        "C13": H(("strong", "weak") + Q, "LTA"),
        "C14": H(("alias", "cast") + Q, "LTA"),
        "C15": H(Q, "LTA"),
        "C16": H(("shared_from",), "LTA"),
        "C23": H(("storage", "storage_life"), "LA"),
        "C24": H(("storage", "storage_life"), "LTA"),
        "C25": H(("storage", "storage_life"), "LA"),
        "C26": H(("storage", "storage_life"), "LA") + [("spinlock", {})],
        "C28": H(OPS_ALL + Q, "LA"),
        "C30": H(Q, "LTA") + UQ,
    }
    for p, f in (("C01", "LA"), ("C03", "LA"), ("C04", "LA"), ("C09", "T"), ("C10", "LA"), ("C11", "LAT"), ("C12", "LA"), ("C16", "LAT"), ("C17", "LAT"),
                 ("C19", "LA"), ("C21", "LAT"), ("C22", "LAT")):
        t[p] = t.get(p, []) + C(f)
    for p, g in (("C29", None), ("C23", ("storage", "life")), ("C24", ("storage", "life")), ("C25", ("storage", "life"))):
        t[p] = t.get(p, []) + [("std", {"groups": g}), ("std", {"groups": g, "config": "20"})]
    t["C12"].append(("std", {"groups": ("storage", "life")}))
    t["C30"].append(("std", {"groups": ("",)}))
    t["C33"] = H(OPS_ALL + Q, "LA") + [("std", {}), ("std", {"config": "20"}), ("spinlock", {})]
    t["C34"] = H(("storage", "storage_life"), "LA") + [("std", {"groups": ("storage", "life")}), ("std", {"groups": ("storage", "life"), "config": "20"}), ("spinlock", {})]
    t["C36"] = H(OPS_ALL + Q, "LA") + C("LA") + UQ + [("std", {}), ("std", {"config": "20"})]
    t["C37"] = H(OPS_ALL + Q, "LTA")
    t["C38"] = H(("storage",), "LA") + [("std", {"groups": ("storage",)})]
    t["C40"] = C("LAT") + UQ
    t["C41"] = H(OPS_ALL + Q, "L") + C("L")
    for p in ("C12", "C27", "C31", "C35", "C39", "C42"):
        t[p] = t.get(p, []) + [("types", {}), ("types", {"config": "20"})]
    bare = {"take": ("C39", "C42"), "skip": "dynamic", "flags": ("-fno-exceptions", "-fno-rtti")}
    t["C43"] = [("types", bare), ("types", dict(bare, config="20"))]
    for p in ("C11", "C12", "C15", "C18", "C19", "C20", "C21", "C22", "C28"):
        t[p] = t.get(p, []) + UQ
    return t


STD = "xmem/std_helpers.hpp"


def plan(prop, tier):
    p = base(prop)
    out = list(p)
    if tier == "thorough":
        out = []
        for c in ("17", "20", "17n", "20n"):
            for name, kw in p:
                k = (name, dict(kw, config=c))
                if k not in out:
                    out.append(k)
        p = out
    # where the headers are another program in another configuration (by the preprocessor), that one is analysed as well
    for c, files in sorted(build.variants().items()):
        for name, kw in p:
            rel = files if name in ("std", "types") else [f for f in files if f != STD]
            if c == "20" and rel == [STD]:
                continue # both are always there
            k = (name, dict(kw, config=c))
            if rel and k not in out and not (c == "20n" and files == build.variants().get("20")) and not any(n == name and x == dict(kw, config=c) for n, x in out):
                out.append(k)
    return out


# Findings of these rules are violations of that property too
PARTS = {
    # each operation takes effect at one point, within one critical section of a lock which excludes and orders
    "C34": ("C23", "C24", "C26"),
}


TECH = {}
NOTE = {}
