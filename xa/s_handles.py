"""Suite: every operation on shared and weak pointers and on the atomic storage, for one family."""
from . import build, handles, ops
from .runner import suite, funcs


@suite("handles")
class Handles:
    def __init__(self, prop, tier, pre, fam, groups=None, config="17", only=None):
        src, self.ops = ops.source()
        self.m = build.module("h" + fam, src, ["-DFAM_" + fam], config)
        self.h = handles.Harness(self.m, fam)
        pre.functions.update(funcs(self.h.functions))
        self.fam, self.groups, self.config, self.only, self.tier, self.prop = fam, groups, config, only, tier, prop

    def items(self):
        return [o for o in self.ops if (self.groups is None or o.group in self.groups) and (self.only is None or self.only(o)) and self.fam in o.fams]

    def cost(self, o):
        return len([1 for k, v, t in o.params if k in ("SP", "WP", "ST")]) + (5 if o.group == "storage" else 0)

    def label(self, o):
        return "%s family=%s config=%s" % (o.name, self.fam, self.config)

    def run(self, o, r):
        h = self.h
        h.functions = {}
        h.stats = {k: 0 for k in h.stats}
        f, obl, cases = handles.analyse_op(h, o, self.tier, alone=self.prop == "C33")
        for x in f:
            x.config = self.config
            x.trace = tuple(x.trace)
        r.findings += f
        r.obl += obl
        r.cases += cases
        r.stats.update({k: v for k, v in h.stats.items()})
        r.functions.update(funcs(h.functions))
