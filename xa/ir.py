"""Loads the JSON IR dump and prepares it for the abstract interpreter."""
import json


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (vanished anchor, unsupported construct)."""


class Func:
    __slots__ = ("name", "dm", "file", "line", "ret", "nounwind", "noreturn", "params",
                 "blocks", "loop_heads", "livein", "mod")

    def __init__(self, name, d, mod):
        self.name = name
        self.dm = d["dm"]
        self.file = d["file"]
        self.line = d["line"]
        self.ret = d["ret"]
        self.nounwind = bool(d["nounwind"])
        self.noreturn = bool(d["noreturn"])
        self.params = d["params"]
        self.blocks = d["blocks"]
        self.loop_heads = None
        self.livein = None
        self.mod = mod

    @property
    def defined(self):
        return bool(self.blocks)

    def prepare(self):
        if self.loop_heads is not None:
            return
        n = len(self.blocks)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(self.blocks):
            t = b[-1]
            if t[0] == "br":
                succ[i] = [t[3]]
            elif t[0] == "cbr":
                succ[i] = [t[4], t[5]]
            elif t[0] == "switch":
                succ[i] = [t[4]] + [c[1] for c in t[5]]
            elif t[0] == "call" and t[8]:
                succ[i] = list(t[8])
        # loop heads: targets of back edges in a DFS
        heads = set()
        color = [0] * n
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
                elif color[v] == 1:
                    heads.add(v)
            else:
                color[u] = 2
                stack.pop()
        self.loop_heads = heads
        if not heads:
            self.livein = None
            return
        # register liveness (phi uses are attributed to the whole block, which is conservative)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]

        def regs(o, acc):
            if isinstance(o, list):
                if len(o) == 2 and o[0] == "r" and isinstance(o[1], int):
                    acc.add(o[1])
                else:
                    for x in o:
                        regs(x, acc)
        for i, b in enumerate(self.blocks):
            for ins in b:
                acc = set()
                for x in ins[3:]:
                    regs(x, acc)
                use[i] |= (acc - dfn[i])
                if ins[1] >= 0:
                    dfn[i].add(ins[1])
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                nl = use[i] | (o - dfn[i])
                if nl != live[i]:
                    live[i] = nl
                    ch = True
        self.livein = live


class Module:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.locs = d["locs"]
        self.globals = d["globals"]
        self.funcs = {k: Func(k, v, self) for k, v in d["funcs"].items()}
        self.path = path

    def tsize(self, t):
        return self.types[t][2]

    def tbits(self, t):
        ty = self.types[t]
        return ty[1] if ty[0] in ("i", "p", "f") else 0
