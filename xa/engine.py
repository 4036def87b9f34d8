"""Path-sensitive abstract interpreter (dataflow / typestate propagation) over LLVM IR.

Abstract domain
  values   constants, pointers (region, offset), relational tokens "symbol + constant" with an
           interval/disequality fact per symbol, comparison tokens and opaque expression terms
  memory   one abstract region per allocation, with cells keyed by byte offset and a live/freed flag
  control  the call stack (callees are analysed in the context of their call site)
  effects  the sequence of property-relevant effects so far (the typestate of the run)

Branches that the domain cannot decide fork the abstract state.  At loop heads a state that was seen
before (up to renaming of regions and symbols) is not propagated again, which makes loops converge;
there is no unrolling bound and no solver.  The library is never executed.
"""
import sys
from .ir import AnalysisError

sys.setrecursionlimit(20000)

U = ("U",)
MASK64 = (1 << 64) - 1


def P(rid, off=0):
    return ("P", rid, off)


def is_ptr(v):
    return isinstance(v, tuple) and v[0] == "P"


def mask(v, bits):
    return v & ((1 << bits) - 1)


class Region:
    __slots__ = ("rid", "name", "size", "kind", "cells", "fill", "live", "meta")

    def __init__(self, rid, name, size, kind, fill="undef", meta=None):
        self.rid = rid
        self.name = name
        self.size = size
        self.kind = kind
        self.cells = {}
        self.fill = fill
        self.live = True
        self.meta = meta or {}

    def clone(self):
        r = Region.__new__(Region)
        r.rid = self.rid
        r.name = self.name
        r.size = self.size
        r.kind = self.kind
        r.cells = dict(self.cells)
        r.fill = self.fill
        r.live = self.live
        r.meta = self.meta
        return r


class Frame:
    __slots__ = ("fn", "block", "ip", "regs", "prev", "allocas", "call", "heads")

    def __init__(self, fn):
        self.fn = fn
        self.block = 0
        self.ip = 0
        self.regs = {}
        self.prev = -1
        self.allocas = []
        self.call = None  # the call instruction currently executing in this frame
        self.heads = {}  # loop head -> (atomic accesses so far, visits with one in between, {cell: (value, changes)}, widened cells)

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.block = self.block
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.prev = self.prev
        f.allocas = list(self.allocas)
        f.call = self.call
        f.heads = dict(self.heads)
        return f


class State:
    __slots__ = ("frames", "mem", "facts", "cmps", "trace", "ghost", "exc", "steps", "nrid", "nsym", "owned", "caught", "entry", "path", "natomic")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = {}
        self.cmps = {}
        self.trace = ()
        self.ghost = {}
        self.exc = None
        self.caught = ()
        self.path = frozenset()
        self.natomic = 0
        self.steps = 0
        self.nrid = 1
        self.nsym = 1
        self.owned = set()
        self.entry = None

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.cmps = dict(self.cmps)
        s.trace = self.trace
        s.path = self.path
        s.natomic = self.natomic
        s.ghost = dict(self.ghost)
        s.exc = self.exc
        s.caught = self.caught
        s.steps = self.steps
        s.nrid = self.nrid
        s.nsym = self.nsym
        s.owned = set()
        self.owned = set()
        s.entry = self.entry
        return s

    # ---- regions
    def new_region(self, name, size, kind, fill="undef", meta=None):
        rid = self.nrid
        self.nrid += 1
        r = Region(rid, name, size, kind, fill, meta)
        self.mem[rid] = r
        self.owned.add(rid)
        return r

    def w(self, rid):
        r = self.mem[rid]
        if rid not in self.owned:
            r = r.clone()
            self.mem[rid] = r
            self.owned.add(rid)
        return r

    # ---- symbols
    def sym(self, bits=32, lo=0, hi=None, k=0):
        s = self.nsym
        self.nsym += 1
        self.facts[s] = (lo, (1 << bits) - 1 if hi is None else hi, frozenset())
        return ("L", s, k, bits)

    def rng(self, v):
        """Value range (lo, hi) of an integer-like value, or None if nothing is known."""
        if isinstance(v, int):
            return (v, v)
        if isinstance(v, tuple) and v[0] == "L":
            lo, hi, ne = self.facts[v[1]]
            k, bits = v[2], v[3]
            m = 1 << bits
            if k >= m // 2:
                k -= m  # interpret as negative
            while lo in ne and lo < hi:
                lo += 1
            while hi in ne and hi > lo:
                hi -= 1
            if lo + k >= 0 and hi + k < m:
                return (lo + k, hi + k)
            if lo == hi:
                x = (lo + k) % m
                return (x, x)
            return None
        return None

    def const(self, v):
        """Resolve a value to a constant if the facts determine it."""
        if isinstance(v, tuple) and v[0] == "L":
            r = self.rng(v)
            if r and r[0] == r[1]:
                return r[0]
        return v

    def ev(self, *e):
        self.trace = self.trace + (e + (where(self),),)

    # ---- deciding tokens: True/False/None
    def truth(self, t):
        if isinstance(t, int):
            return t != 0
        if t == U:
            return None
        if t[0] == "N":
            x = self.truth(t[1])
            return None if x is None else (not x)
        if t[0] == "P":
            return True
        if t[0] == "L":
            r = self.rng(t)
            if r:
                if r[0] > 0:
                    return True
                if r[1] == 0:
                    return False
            lo, hi, ne = self.facts[t[1]]
            if mask(-t[2], t[3]) in ne:
                return True
            return None
        if t in self.cmps:
            return self.cmps[t]
        if t[0] == "C":
            return self._dec(t)
        if t[0] == "O":
            a = self.truth(t[1])
            b = self.truth(t[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        return None

    def _dec(self, t):
        _, pred, a, b = t
        a = self.const(a)
        b = self.const(b)
        if pred == "eq":
            return self.eq(a, b)
        if pred == "ult":
            if a == b:
                return False
            if is_ptr(a) and is_ptr(b):
                if a[1] == b[1]:
                    return a[2] < b[2]
            if b == 0:
                return False
            ra, rb = self.rng(a), self.rng(b)
            if ra and rb:
                if ra[1] < rb[0]:
                    return True
                if ra[0] >= rb[1]:
                    return False
            r = self.cmps.get(("C", "ult", b, a))
            if r:
                return False
            return None
        if pred == "slt":
            if a == b:
                return False
            if isinstance(a, int) and isinstance(b, int):
                return a < b  # already sign-adjusted
            ra, rb = self.rng(a), self.rng(b)
            if ra and rb and ra[1] < (1 << 62) and rb[1] < (1 << 62):
                if ra[1] < rb[0]:
                    return True
                if ra[0] >= rb[1]:
                    return False
            return None
        return None

    def eq(self, a, b):
        if a == b:
            return None if a == U else True
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, int):
            a, b = b, a
        if is_ptr(a):
            if isinstance(b, int):
                return False
            if is_ptr(b):
                return False  # different region, or different offset in one region
        if a[0] == "L":
            if isinstance(b, int):
                lo, hi, ne = self.facts[a[1]]
                c = mask(b - a[2], a[3])
                if c < lo or c > hi or c in ne:
                    return False
                if lo == hi == c:
                    return True
                return None
            if isinstance(b, tuple) and b[0] == "L":
                if a[1] == b[1]:
                    return mask(a[2] - b[2], a[3]) == 0
                ra, rb = self.rng(a), self.rng(b)
                if ra and rb and (ra[1] < rb[0] or rb[1] < ra[0]):
                    return False
        if isinstance(b, int) and a[0] in ("C", "N", "O"):
            x = self.truth(a)
            if x is None:
                return None
            return int(x) == b
        r = self.cmps.get(("C", "eq", a, b))
        if r is None:
            r = self.cmps.get(("C", "eq", b, a))
        return r

    def assume(self, t, val):
        """Refine with token t having truth value val. Returns False if infeasible."""
        cur = self.truth(t)
        if cur is not None:
            return cur == val
        if t[0] == "N":
            return self.assume(t[1], not val)
        if t[0] == "L":
            return self._assume_eq(t, 0, not val)
        if t[0] == "O":
            if not val:
                return self.assume(t[1], False) and self.assume(t[2], False)
            self.cmps[t] = True
            return True
        if t[0] == "C":
            _, pred, a, b = t
            if pred == "eq":
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int) and isinstance(a, tuple) and a[0] in ("C", "N", "O"):
                    if b in (0, 1):
                        return self.assume(a, val if b else not val)
                b = self.const(b)
                a2 = self.const(a)
                if isinstance(a2, int) and isinstance(b, tuple) and b[0] == "L":
                    a, b = b, a2
                if isinstance(b, int) and isinstance(a, tuple) and a[0] == "L":
                    return self._assume_eq(a, b, val)
            if pred == "ult":
                a, b = self.const(a), self.const(b)
                if isinstance(a, tuple) and a[0] == "L" and isinstance(b, int):
                    if not self._bound(a, hi=b - 1 if val else None, lo=None if val else b):
                        return False
                elif isinstance(b, tuple) and b[0] == "L" and isinstance(a, int):
                    if not self._bound(b, lo=a + 1 if val else None, hi=None if val else a):
                        return False
        self.cmps[t] = val
        return True

    def _bound(self, v, lo=None, hi=None):
        if self.rng(v) is None:
            return True
        k, bits = v[2], v[3]
        m = 1 << bits
        if k >= m // 2:
            k -= m
        l, h, ne = self.facts[v[1]]
        if lo is not None:
            l = max(l, lo - k)
        if hi is not None:
            h = min(h, hi - k)
        if l > h:
            return False
        self.facts[v[1]] = (l, h, ne)
        return True

    def _assume_eq(self, a, c, val):
        lo, hi, ne = self.facts[a[1]]
        x = mask(c - a[2], a[3])
        if val:
            if x < lo or x > hi or x in ne:
                return False
            self.facts[a[1]] = (x, x, ne)
        else:
            if lo == hi == x:
                return False
            ne = ne | {x}
            while lo in ne and lo <= hi:
                lo += 1
            while hi in ne and hi >= lo:
                hi -= 1
            if lo > hi:
                return False
            self.facts[a[1]] = (lo, hi, ne)
        return True


def where(st):
    """Call path, innermost first: ((function, file, line), ...)."""
    out = []
    for f in reversed(st.frames):
        b = f.fn.blocks[f.block]
        ip = min(f.ip, len(b) - 1)
        l = b[ip][2]
        if l >= 0:
            loc = f.fn.mod.locs[l]
            out.append((f.fn.dm, loc[0], loc[1]))
        else:
            out.append((f.fn.dm, f.fn.file, f.fn.line))
    return tuple(out)


class Exit:
    __slots__ = ("kind", "value", "state", "why")

    def __init__(self, kind, value, state, why=None):
        self.kind = kind      # ret, unwind, terminate, stop
        self.value = value
        self.state = state
        self.why = why


class Fault(Exception):
    """A memory-safety fault found in the abstract run (kind, description)."""

    def __init__(self, kind, msg, rid=None):
        self.kind = kind
        self.msg = msg
        self.rid = rid


MAX_STEPS = 100000
MAX_PATHS = 20000
WIDEN = 12  # values of a counter which are told apart


class Engine:
    def __init__(self, module, monitor):
        self.m = module
        self.mon = monitor
        self.types = module.types
        self.stats = {"instructions": 0, "paths": 0, "forks": 0, "merged": 0}
        self.functions = {}  # functions analysed: dm -> (file, line)
        self.ops = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith("op_")}

    # ------------------------------------------------------------------ run
    def run(self, fname, args, st, cap=None):
        fn = self.m.funcs.get(fname)
        if fn is None or not fn.defined:
            raise AnalysisError("no definition of entry %s" % fname)
        self.exits = []
        self.seen = {}
        st.frames = []
        self.push(st, fn, args)
        work = [st]
        npaths = 0
        while work:
            s = work.pop()
            npaths += 1
            if npaths > MAX_PATHS:
                raise AnalysisError("too many abstract states in %s" % fname)
            self.step_until_fork(s, work)
        self.stats["paths"] += len(self.exits)
        return self.exits

    def push(self, st, fn, args):
        fn.prepare()
        if len(st.frames) > 200:
            raise AnalysisError("call stack too deep at %s" % fn.dm)
        f = Frame(fn)
        for i, (p, a) in enumerate(zip(fn.params, args)):
            f.regs[i] = a
        st.frames.append(f)
        if fn.name not in self.functions:
            self.functions[fn.name] = fn

    def step_until_fork(self, st, work):
        ops = self.ops
        try:
            while True:
                f = st.frames[-1]
                ins = f.fn.blocks[f.block][f.ip]
                st.steps += 1
                self.stats["instructions"] += 1
                if st.steps > MAX_STEPS:
                    if self.mon.alone(st):
                        self.exits.append(Exit("stop", None, st, "stuck"))
                        return
                    raise AnalysisError("path too long in %s" % f.fn.dm)
                r = ops[ins[0]](st, f, ins)
                if r is None:
                    continue
                # r: list of successor states (may be empty)
                if len(r) == 1 and r[0] is st:
                    continue
                if len(r) > 1:
                    self.stats["forks"] += 1
                work.extend(r)
                return
        except Fault as e:
            self.mon.fault(st, e)
            self.exits.append(Exit("stop", None, st, "fault"))

    # ------------------------------------------------------------------ values
    def val(self, st, f, o):
        k = o[0]
        if k == "r":
            return f.regs.get(o[1], U)
        if k == "i":
            return o[1]
        if k == "g":
            return ("P", self.greg(st, o[1]), o[2])
        if k == "u":
            return U
        if k == "z":
            return self.zero(o[1])
        if k == "a":
            return ("A", tuple(self.val(st, f, x) for x in o[1]))
        if k == "x":
            return ("F", o[1])
        if k == "m":
            return U
        raise AnalysisError("operand %r" % (o,))

    def zero(self, t):
        ty = self.types[t]
        if ty[0] == "s":
            return ("A", tuple(self.zero(x[1]) for x in ty[1]))
        if ty[0] == "f":
            return ("F", "0")
        return 0

    def greg(self, st, name):
        rid = "@" + name
        if rid not in st.mem:
            if name in self.m.funcs:
                r = Region(rid, name, 1, "func")
            else:
                g = self.m.globals.get(name)
                if g is None:
                    raise AnalysisError("unknown global " + name)
                r = Region(rid, g["dm"], g["size"], "global", "undef" if g["init"] is not None else "sym",
                           {"const": bool(g["const"]), "name": name, "dm": g["dm"]})
                st.mem[rid] = r
                st.owned.add(rid)
                if g["init"]:
                    for off, size, op in g["init"]:
                        if op[0] == "u":
                            continue
                        if op[0] == "z":
                            v = 0
                        else:
                            v = self.val(st, None, op)
                        r.cells[off] = (size, v)
            st.mem[rid] = r
            st.owned.add(rid)
        return rid

    # ------------------------------------------------------------------ memory
    def reg_of(self, st, p, what, size=1):
        if not is_ptr(p):
            if p == 0 or (isinstance(p, int) and p < 65536):
                raise Fault("null", "%s through a null pointer" % what)
            if p == U:
                raise Fault("undef", "%s through an indeterminate pointer" % what)
            raise Fault("wild", "%s through an unknown pointer value %r" % (what, p))
        r = st.mem.get(p[1])
        if r is None:
            raise AnalysisError("no region %r" % (p,))
        if not r.live:
            raise Fault("freed", "%s of %s after it was freed" % (what, r.name), r.rid)
        if r.size is not None and size and not (0 <= p[2] and p[2] + size <= r.size):
            raise Fault("bounds", "%s outside of %s (offset %d, %d bytes of %d)" % (what, r.name, p[2], size, r.size), r.rid)
        if r.kind == "func":
            raise Fault("func", "%s of a function" % what)
        return r

    def read_cell(self, st, r, off, size):
        c = r.cells.get(off)
        if c is not None:
            if c[0] == size:
                return c[1]
            if isinstance(c[1], int) and c[0] > size:
                return mask(c[1], size * 8)
        # covered by a larger cell?
        for o, (sz, v) in r.cells.items():
            if o <= off and off + size <= o + sz and (o, sz) != (off, size):
                if isinstance(v, int):
                    return mask(v >> (8 * (off - o)), size * 8)
                if v == U:
                    return U
                return ("E", "part", v, off - o, size)
        # composed of smaller cells?
        parts = sorted((o, sz, v) for o, (sz, v) in r.cells.items() if o < off + size and o + sz > off)
        if parts:
            if all(isinstance(x[2], int) for x in parts) and sum(x[1] for x in parts) == size and parts[0][0] == off:
                acc = 0
                for o, sz, v in parts:
                    acc |= v << (8 * (o - off))
                return acc
            if r.fill == "zero" and all(isinstance(x[2], int) and x[0] >= off and x[0] + x[1] <= off + size for x in parts):
                acc = 0
                for o, sz, v in parts:
                    acc |= v << (8 * (o - off))
                return acc
            if any(x[2] == U for x in parts) or r.fill == "undef":
                return U
            return ("E", "mixed", r.rid, off, size, len(st.trace))
        if r.fill == "zero":
            return 0
        if r.fill == "sym":
            v = st.sym(size * 8)
            st.w(r.rid).cells[off] = (size, v)
            return v
        return U

    def write_cell(self, st, rid, off, size, v):
        r = st.w(rid)
        c = r.cells
        old = c.get(off)
        if old is None or old[0] != size:
            for o in [o for o, (sz, _) in c.items() if o < off + size and o + sz > off]:
                sz, ov = c.pop(o)
                # keep the non-overlapped parts
                if o < off:
                    n = off - o
                    c[o] = (n, mask(ov, n * 8) if isinstance(ov, int) else (U if ov == U else ("E", "part", ov, 0, n)))
                if o + sz > off + size:
                    n = o + sz - off - size
                    c[off + size] = (n, mask(ov >> (8 * (off + size - o)), n * 8) if isinstance(ov, int) else
                                     (U if ov == U else ("E", "part", ov, off + size - o, n)))
        c[off] = (size, v)

    def load(self, st, p, t, order="na"):
        ty = self.types[t]
        if ty[0] == "s":
            return ("A", tuple(self.load(st, ("P", p[1], p[2] + o) if is_ptr(p) else p, ft, order) for o, ft in ty[1]))
        size = ty[2]
        r = self.reg_of(st, p, "read", size)
        if order != "na":
            st.natomic += 1
        v = self.mon.on_load(self, st, r, p[2], size, order)
        if v is None:
            v = self.read_cell(st, r, p[2], size)
        if ty[0] == "i" and ty[1] < size * 8 and isinstance(v, int):
            v = mask(v, ty[1])
        return v

    def store(self, st, p, t, v, order="na"):
        ty = self.types[t]
        if ty[0] == "s":
            for i, (o, ft) in enumerate(ty[1]):
                x = v[1][i] if (isinstance(v, tuple) and v[0] == "A") else U
                self.store(st, ("P", p[1], p[2] + o) if is_ptr(p) else p, ft, x, order)
            return
        size = ty[2]
        r = self.reg_of(st, p, "write", size)
        if r.meta.get("const"):
            raise Fault("const", "write to constant %s" % r.name, r.rid)
        if self.mon.on_store(self, st, r, p[2], size, v, order):
            return
        self.write_cell(st, r.rid, p[2], size, v)

    def copy(self, st, dst, src, n):
        if n == 0:
            return
        rs = self.reg_of(st, src, "read", n)
        rd = self.reg_of(st, dst, "write", n)
        self.mon.on_bulk(self, st, rs, src[2], n, "load")
        self.mon.on_bulk(self, st, rd, dst[2], n, "store")
        moved = []
        covered = 0
        for o, (sz, v) in sorted(rs.cells.items()):
            lo, hi = max(o, src[2]), min(o + sz, src[2] + n)
            if lo >= hi:
                continue
            if (lo, hi) != (o, o + sz):
                v = mask(v >> (8 * (lo - o)), (hi - lo) * 8) if isinstance(v, int) else (U if v == U else ("E", "part", v, lo - o, hi - lo))
            moved.append((lo - src[2], hi - lo, v))
            covered += hi - lo
        if covered < n:
            if rs.fill == "sym" and not moved:
                v = st.sym(n * 8 if n <= 8 else 64)
                st.w(rs.rid).cells[src[2]] = (n, v)
                moved = [(0, n, v)]
            else:
                self.write_cell(st, rd.rid, dst[2], n, 0 if rs.fill == "zero" else U)
        for o, sz, v in moved:
            self.write_cell(st, rd.rid, dst[2] + o, sz, v)

    # ------------------------------------------------------------------ instructions
    def op_alloca(self, st, f, ins):
        _, d, loc, size, cnt, align, name = ins
        c = self.val(st, f, cnt)
        if not isinstance(c, int):
            raise AnalysisError("dynamic alloca")
        r = st.new_region(name or "tmp", size * c, "stack", "undef", {"fn": f.fn.dm, "align": align})
        f.allocas.append(r.rid)
        f.regs[d] = ("P", r.rid, 0)
        f.ip += 1

    def op_load(self, st, f, ins):
        _, d, loc, t, p, order = ins
        f.regs[d] = self.load(st, self.val(st, f, p), t, order)
        f.ip += 1

    def op_store(self, st, f, ins):
        _, d, loc, t, v, p, order = ins
        self.store(st, self.val(st, f, p), t, self.val(st, f, v), order)
        f.ip += 1

    def op_gep(self, st, f, ins):
        _, d, loc, b, off, var = ins
        b = self.val(st, f, b)
        for o, sc in var:
            x = st.const(self.val(st, f, o))
            if isinstance(x, int):
                if x >= 1 << 63:
                    x -= 1 << 64
                elif x >= 1 << 31 and x < 1 << 32:
                    pass
                off += x * sc
            else:
                b = ("E", "gep", b, x, sc)
        if isinstance(b, int):
            f.regs[d] = mask(b + off, 64)
        elif is_ptr(b):
            f.regs[d] = ("P", b[1], b[2] + off)
        elif b == U:
            f.regs[d] = U
        else:
            f.regs[d] = ("E", "gepc", b, off) if off else b
        f.ip += 1

    def op_cast(self, st, f, ins):
        _, d, loc, op, st_, dt, v = ins
        v = self.val(st, f, v)
        sb, db = self.m.tbits(st_), self.m.tbits(dt)
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            r = v
        elif op == "trunc":
            if isinstance(v, int):
                r = mask(v, db)
            elif v[0] in ("C", "N", "O"):
                r = v
            elif v[0] == "L":
                rg = st.rng(v)
                if rg and rg[1] < (1 << db):
                    r = self._resize(st, v, db)
                else:
                    r = ("E", "trunc", v, db) if db > 1 else ("E", "bit0", v)
            elif v[0] == "E" and v[1] == "zext" and v[3] == db:
                r = v[2]
            elif v == U:
                r = U
            else:
                r = ("E", "trunc", v, db)
        elif op == "zext":
            if isinstance(v, int):
                r = v
            elif v[0] in ("C", "N", "O", "U"):
                r = v
            elif v[0] == "L":
                rg = st.rng(v)
                r = self._resize(st, v, db) if rg else ("E", "zext", v, sb)
            else:
                r = ("E", "zext", v, sb)
        elif op == "sext":
            if isinstance(v, int):
                r = v if v < (1 << (sb - 1)) else mask(v - (1 << sb), db)
            elif v[0] == "L":
                rg = st.rng(v)
                r = self._resize(st, v, db) if rg and rg[1] < (1 << (sb - 1)) else ("E", "sext", v, sb)
            elif v == U:
                r = U
            else:
                r = ("E", "sext", v, sb)
        else:
            r = U if v == U else ("E", op, v)
        f.regs[d] = r
        f.ip += 1

    def _resize(self, st, v, db):
        """Same symbol, other width; the range is known not to wrap."""
        k = v[2]
        if k >= 1 << (v[3] - 1):
            k -= 1 << v[3]
        return ("L", v[1], mask(k, db), db)

    def op_bin(self, st, f, ins):
        _, d, loc, op, t, a, b = ins
        a = st.const(self.val(st, f, a))
        b = st.const(self.val(st, f, b))
        bits = self.m.tbits(t)
        f.regs[d] = self.binop(st, op, a, b, bits)
        f.ip += 1

    def binop(self, st, op, a, b, bits):
        if isinstance(a, int) and isinstance(b, int):
            if op == "add": return mask(a + b, bits)
            if op == "sub": return mask(a - b, bits)
            if op == "mul": return mask(a * b, bits)
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return mask(a << b, bits) if b < bits else U
            if op == "lshr": return a >> b if b < bits else U
            if op == "udiv": return a // b if b else U
            if op == "urem": return a % b if b else U
            s = lambda x: x - (1 << bits) if x >= 1 << (bits - 1) else x
            if op == "sdiv": return mask(int(s(a) / s(b)), bits) if b else U
            if op == "srem":
                return mask(s(a) - int(s(a) / s(b)) * s(b), bits) if b else U
            if op == "ashr": return mask(s(a) >> b, bits)
        if a == U or b == U:
            return U
        if bits == 1 or (isinstance(a, tuple) and a[0] in ("C", "N", "O")) or (isinstance(b, tuple) and b[0] in ("C", "N", "O")):
            # boolean algebra on tokens
            if op == "xor":
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    return a if b == 0 else self.neg(a)
            if op == "and":
                if isinstance(a, int):
                    a, b = b, a
                if b == 0:
                    return 0
                if isinstance(b, int) and b & 1:
                    return a
                return self.neg(("O", self.neg(a), self.neg(b)))
            if op == "or":
                if isinstance(a, int):
                    a, b = b, a
                if b == 0:
                    return a
                if isinstance(b, int) and bits == 1:
                    return 1
                return ("O", a, b)
        if op in ("add", "sub"):
            if isinstance(b, int):
                if op == "sub":
                    b = -b
                if is_ptr(a):
                    x = mask(b, 64)
                    return ("P", a[1], a[2] + (x - (1 << 64) if x >= 1 << 63 else x))
                if a[0] == "L":
                    return ("L", a[1], mask(a[2] + b, bits), bits)
            elif op == "add" and isinstance(a, int):
                return self.binop(st, "add", b, a, bits)
            elif op == "sub":
                if a[0] == "L" and isinstance(b, tuple) and b[0] == "L" and a[1] == b[1]:
                    return mask(a[2] - b[2], bits)
                if is_ptr(a) and is_ptr(b) and a[1] == b[1]:
                    return mask(a[2] - b[2], bits)
            if a == 0 and op == "add":
                return b
        if op == "mul":
            if b == 1: return a
            if a == 1: return b
            if a == 0 or b == 0: return 0
            if isinstance(a, int):
                a, b = b, a
        if op in ("or", "shl", "lshr", "ashr") and b == 0:
            return a
        if op == "and" and (a == 0 or b == 0):
            return 0
        if op == "and" and isinstance(b, int) and b == (1 << bits) - 1:
            return a
        if op == "udiv" and b == 1:
            return a
        if op == "shl" and isinstance(b, int):
            return self.binop(st, "mul", a, 1 << b, bits)
        return ("E", op, a, b)

    def neg(self, t):
        if isinstance(t, int):
            return 1 - (t & 1)
        if t[0] == "N":
            return t[1]
        return ("N", t)

    def op_icmp(self, st, f, ins):
        _, d, loc, pred, t, a, b = ins
        a = st.const(self.val(st, f, a))
        b = st.const(self.val(st, f, b))
        f.regs[d] = self.icmp(st, pred, a, b, self.m.tbits(t))
        f.ip += 1

    def icmp(self, st, pred, a, b, bits=64):
        if a == U or b == U:
            return U
        if pred == "ne":
            return self.neg(self.icmp(st, "eq", a, b, bits))
        if pred in ("ugt", "uge", "sgt", "sge"):
            p = {"ugt": "ult", "sgt": "slt", "uge": "ule", "sge": "sle"}[pred]
            return self.icmp(st, p, b, a, bits)
        if pred in ("ule", "sle"):
            return self.neg(self.icmp(st, {"ule": "ult", "sle": "slt"}[pred], b, a, bits))
        if pred == "eq":
            if isinstance(a, int):
                a, b = b, a
            if b == 0 and isinstance(a, tuple) and a[0] in ("C", "N", "O"):
                return self.neg(a)
            if b == 1 and isinstance(a, tuple) and a[0] in ("C", "N", "O"):
                return a
        if pred == "ult" and is_ptr(b):
            if a == 0:
                return 1
            if is_ptr(a) and a[1] != b[1] and (str(a[1]), a[2]) > (str(b[1]), b[2]):
                return self.neg(self.icmp(st, "ult", b, a, bits))  # distinct objects are ordered one way or the other
        if pred == "slt" and isinstance(a, int) and isinstance(b, int):
            s = lambda x: x - (1 << bits) if x >= 1 << (bits - 1) else x
            return int(s(a) < s(b))
        t = ("C", pred, a, b)
        x = st.truth(t)
        if x is not None:
            return int(x)
        return t

    def op_br(self, st, f, ins):
        return self.goto(st, f, ins[3])

    def goto(self, st, f, b):
        f.prev = f.block
        f.block = b
        f.ip = 0
        if b in f.fn.loop_heads:
            if not self.mon.alone(st):
                self.widen(st, f, b)
            k = canon(st)
            if self.mon.alone(st):
                # nobody interferes: the same state again means that the path never ends
                k = (k[0], f.fn.name, b)
                if k in st.path:
                    self.exits.append(Exit("stop", None, st, "stuck"))
                    return []
                st.path |= {k}
                return None
            key = (f.fn.name, b)
            s = self.seen.setdefault(key, set())
            if k in s:
                self.stats["merged"] += 1
                return []
            s.add(k)
            if len(s) > 20000:
                raise AnalysisError("loop in %s does not converge" % f.fn.dm)
        return None

    def widen(self, st, f, b):
        """Counters of the rounds of a loop which waits for other threads (it has an atomic access in each round) become unknown."""
        last, n, cells, wide = f.heads.get(b, (-1, 0, {}, frozenset()))
        if st.natomic == last:
            return  # a loop within the round
        now = {}
        for rid in f.allocas:
            for off, c in st.mem[rid].cells.items():
                if c[0] in (2, 4, 8) and (isinstance(c[1], int) or (rid, off) in wide):
                    v, k = cells.get((rid, off), (c[1], 0))
                    now[rid, off] = (c[1], k + 1 if v != c[1] else k)
        for (rid, off), (v, k) in now.items():
            if (rid, off) in wide or k >= WIDEN:
                size = st.mem[rid].cells[off][0]
                self.write_cell(st, rid, off, size, st.sym(size * 8))
                wide |= {(rid, off)}
        f.heads[b] = (st.natomic, n + 1, now, wide)

    def fork(self, st, token, ontrue, onfalse):
        """ontrue/onfalse: functions(state) -> list of states or None (continue)."""
        x = st.truth(token)
        if token == U:
            raise Fault("undef", "branch on an indeterminate value")
        if x is not None:
            r = (ontrue if x else onfalse)(st)
            return [st] if r is None else r
        out = []
        a = st
        b = st.clone()
        if a.assume(token, True):
            r = ontrue(a)
            out += [a] if r is None else r
        if b.assume(token, False):
            r = onfalse(b)
            out += [b] if r is None else r
        return out

    def op_cbr(self, st, f, ins):
        _, d, loc, c, bt, bf = ins
        c = self.val(st, f, c)
        if isinstance(c, int):
            return self.goto(st, f, bt if c & 1 else bf)
        r = self.fork(st, c,
                      lambda s: self.goto(s, s.frames[-1], bt),
                      lambda s: self.goto(s, s.frames[-1], bf))
        return r

    def op_switch(self, st, f, ins):
        _, d, loc, c, dflt, cases = ins
        v = st.const(self.val(st, f, c))
        if isinstance(v, int):
            for cv, b in cases:
                if cv[1] == v:
                    return self.goto(st, f, b)
            return self.goto(st, f, dflt)
        if v == U:
            raise Fault("undef", "switch on an indeterminate value")
        out = []
        cur = st
        for cv, b in cases:
            t = self.icmp(cur, "eq", v, cv[1])
            n = cur.clone()
            if n.assume(t, True):
                r = self.goto(n, n.frames[-1], b)
                out += [n] if r is None else r
            if not cur.assume(t, False):
                return out
        r = self.goto(cur, cur.frames[-1], dflt)
        return out + ([cur] if r is None else r)

    def op_phi(self, st, f, ins):
        # evaluate all phis of the block together
        b = f.fn.blocks[f.block]
        vals = []
        i = f.ip
        while b[i][0] == "phi":
            for blk, o in b[i][3]:
                if blk == f.prev:
                    vals.append((b[i][1], self.val(st, f, o)))
                    break
            else:
                raise AnalysisError("phi without incoming edge")
            i += 1
        for d, v in vals:
            f.regs[d] = v
        f.ip = i

    def op_select(self, st, f, ins):
        _, d, loc, c, a, b = ins
        c = self.val(st, f, c)

        def pick(o):
            def g(s):
                fr = s.frames[-1]
                fr.regs[d] = self.val(s, fr, o)
                fr.ip += 1
                return None
            return g
        if isinstance(c, int):
            pick(a if c & 1 else b)(st)
            return None
        va, vb = self.val(st, f, a), self.val(st, f, b)
        if va == 1 and vb == 0 and isinstance(c, tuple) and c[0] in ("C", "N", "O"):
            f.regs[d] = c
            f.ip += 1
            return None
        return self.fork(st, c, pick(a), pick(b))

    def op_extract(self, st, f, ins):
        _, d, loc, a, ix = ins
        v = self.val(st, f, a)
        for i in ix:
            if isinstance(v, tuple) and v[0] == "A":
                v = v[1][i]
            elif v == U:
                break
            elif v == 0:
                break
            else:
                v = ("E", "extract", v, i)
        f.regs[d] = v
        f.ip += 1

    def op_insert(self, st, f, ins):
        _, d, loc, t, a, x, ix = ins
        agg = self.val(st, f, a)
        x = self.val(st, f, x)

        def put(agg, t, ix):
            ty = self.types[t]
            n = len(ty[1])
            el = list(agg[1]) if isinstance(agg, tuple) and agg[0] == "A" else [U] * n
            if len(ix) == 1:
                el[ix[0]] = x
            else:
                el[ix[0]] = put(el[ix[0]], ty[1][ix[0]][1], ix[1:])
            return ("A", tuple(el))
        f.regs[d] = put(agg, t, ix)
        f.ip += 1

    def op_rmw(self, st, f, ins):
        _, d, loc, op, t, p, v, order = ins
        p = self.val(st, f, p)
        v = st.const(self.val(st, f, v))
        size = self.m.tsize(t)
        bits = self.m.tbits(t)
        r = self.reg_of(st, p, "atomic update", size)
        st.natomic += 1
        res = self.mon.on_rmw(self, st, r, p[2], size, op, v, order)
        if res is not None:
            f = st.frames[-1]
            f.regs[d] = res
            f.ip += 1
            return None
        old = self.read_cell(st, r, p[2], size)
        new = self.rmw_new(st, op, old, v, bits)
        self.write_cell(st, r.rid, p[2], size, new)
        f.regs[d] = old
        f.ip += 1

    def rmw_new(self, st, op, old, v, bits):
        if op == "xchg":
            return v
        if op in ("add", "sub", "and", "or", "xor"):
            return self.binop(st, op, st.const(old), v, bits)
        return ("E", "rmw" + op, old, v)

    def op_cmpxchg(self, st, f, ins):
        _, d, loc, t, p, cmp, new, so, fo, weak = ins
        p = self.val(st, f, p)
        cmp = st.const(self.val(st, f, cmp))
        new = st.const(self.val(st, f, new))
        size = self.m.tsize(t)
        r = self.reg_of(st, p, "atomic update", size)
        st.natomic += 1
        res = self.mon.on_cmpxchg(self, st, r, p[2], size, cmp, new, so, fo, weak)
        if res is not None:
            out = []
            for s, old, ok in res:
                fr = s.frames[-1]
                fr.regs[d] = ("A", (old, ok))
                fr.ip += 1
                out.append(s)
            return out
        old = self.read_cell(st, r, p[2], size)
        tok = self.icmp(st, "eq", old, cmp)

        def yes(s):
            if True:
                self.write_cell(s, r.rid, p[2], size, new)
            fr = s.frames[-1]
            fr.regs[d] = ("A", (old, 1))
            fr.ip += 1

        def no(s):
            fr = s.frames[-1]
            fr.regs[d] = ("A", (old, 0))
            fr.ip += 1
        if isinstance(tok, int):
            tok = tok
            if tok and weak and self.mon.spurious:
                b = st.clone()
                yes(st)
                no(b)
                return [st, b]
            (yes if tok else no)(st)
            return None
        return self.fork(st, tok, yes, no)

    def op_fence(self, st, f, ins):
        self.mon.on_fence(self, st, ins[3], ins[4])
        f.ip += 1

    def op_unreachable(self, st, f, ins):
        self.exits.append(Exit("stop", None, st, "unreachable"))
        self.mon.on_unreachable(self, st)
        return []

    def op_other(self, st, f, ins):
        raise AnalysisError("unsupported instruction %s in %s" % (ins[3], f.fn.dm))

    # ------------------------------------------------------------------ calls and unwinding
    def op_ret(self, st, f, ins):
        v = self.val(st, f, ins[3]) if ins[3] is not None else None
        self.pop(st)
        if not st.frames:
            self.exits.append(Exit("ret", v, st))
            return []
        self.finish_call(st, v)
        # the caller may continue at a loop head
        return self._after_call(st)

    def _after_call(self, st):
        f = st.frames[-1]
        ins = f.call
        f.call = None
        if ins[8]:
            return self.goto(st, f, ins[8][0])
        f.ip += 1
        return None

    def finish_call(self, st, v):
        f = st.frames[-1]
        if f.call[1] >= 0:
            f.regs[f.call[1]] = v

    def pop(self, st):
        f = st.frames.pop()
        for rid in f.allocas:
            self.mon.on_stack_death(self, st, rid)
            if rid in st.mem:
                st.w(rid).live = False
        return f

    def op_call(self, st, f, ins):
        _, d, loc, t, callee, args, nounwind, noreturn, dest, byval = ins
        f.call = ins
        if callee[0] == "asm":
            f.call = None
            f.ip += 1
            if d >= 0:
                f.regs[d] = st.sym(64)
            return None
        name = None
        c = self.val(st, f, callee)
        if is_ptr(c) and isinstance(c[1], str) and c[1][1:] in self.m.funcs:
            name = c[1][1:]
        elif is_ptr(c) and st.mem[c[1]].kind == "fnptr":
            av = [self.val(st, f, a) for a in args]
            return self.outcomes(st, self.mon.on_fnptr(self, st, c, av, bool(nounwind)))
        else:
            if c == 0:
                raise Fault("null", "call through a null pointer")
            raise Fault("wild", "call through an unknown pointer %r" % (c,))
        fn = self.m.funcs[name]
        if name.startswith("llvm."):
            return self.intrinsic(st, f, ins, name, [self.val(st, f, a) for a in args])
        av = [self.val(st, f, a) for a in args]
        for i, n in byval:
            r = st.new_region("byval", n, "stack", "undef", {"fn": fn.dm})
            f.allocas.append(r.rid)
            self.copy(st, P(r.rid), av[i], n)
            av[i] = P(r.rid)
        res = self.mon.on_call(self, st, fn, av, bool(nounwind) or fn.nounwind)
        if res is not None:
            return self.outcomes(st, res)
        if fn.defined:
            self.push(st, fn, av)
            return None
        res = self.builtin(st, fn, av, bool(nounwind) or fn.nounwind)
        if res is None:
            res = self.mon.on_extern(self, st, fn, av, bool(nounwind) or fn.nounwind)
        if res is None:
            raise AnalysisError("call of unmodelled external function %s (%s) at %s" % (fn.dm, fn.name, where(st)[0]))
        return self.outcomes(st, res)

    def outcomes(self, st, res):
        """res: list of (state, kind, value)"""
        out = []
        for s, kind, v in res:
            if kind == "ret":
                self.finish_call(s, v)
                r = self._after_call(s)
                out += [s] if r is None else r
            elif kind == "throw":
                r = self.throw(s, v)
                out += [s] if r is None else r
            elif kind == "terminate":
                s.ev("terminate", v)
                self.exits.append(Exit("terminate", None, s, v))
            elif kind == "stop":
                self.exits.append(Exit("stop", None, s, v))
            elif kind == "frame":  # a frame was pushed by the handler
                out.append(s)
            else:
                raise AnalysisError("outcome " + kind)
        if len(out) == 1 and out[0] is st:
            return None
        return out

    def throw(self, st, exc):
        """Unwind st (whose top frame is at a call) with exception exc."""
        st.exc = exc
        first = True
        while st.frames:
            f = st.frames[-1]
            ins = f.call
            f.call = None
            if ins and ins[0] == "call" and ins[8]:
                lp_block = ins[8][1]
                b = f.fn.blocks[lp_block]
                i = 0
                while b[i][0] == "phi":
                    i += 1
                lp = b[i]
                if lp[0] == "lpad" and (lp[3] or self.match(st, exc, lp[4]) is not None):
                    return self.goto(st, f, lp_block)
            self.pop(st)
        self.exits.append(Exit("unwind", exc, st))
        return []

    def match(self, st, exc, clauses):
        for kind, c in clauses:
            if kind == "catch":
                if c == ["i", 0]:
                    return 0
                ti = c[1] if c[0] == "g" else None
                if self.mon.catches(exc, ti):
                    return ti
            elif kind == "filter":
                return "filter"
        return None

    def op_lpad(self, st, f, ins):
        _, d, loc, cleanup, clauses = ins
        m = self.match(st, st.exc, clauses)
        sel = 0
        if m is not None:
            sel = self.tid(m)
        f.regs[d] = ("A", (("P", self.excreg(st), 0), sel))
        f.ip += 1

    def tid(self, m):
        if m == 0:
            return 1
        if m == "filter":
            return (1 << 32) - 1
        return 2 + (sum(ord(c) * (i + 1) for i, c in enumerate(m)) % 100000)

    def excreg(self, st):
        rid = "exc:" + str(st.exc)
        if rid not in st.mem:
            st.mem[rid] = Region(rid, rid, None, "exc", "sym")
            st.owned.add(rid)
        return rid

    def op_resume(self, st, f, ins):
        v = self.val(st, f, ins[3])
        # continue unwinding out of this frame
        exc = st.exc
        p = v[1][0] if isinstance(v, tuple) and v[0] == "A" else None
        if is_ptr(p) and isinstance(p[1], str) and p[1].startswith("exc:"):
            exc = p[1][4:]
        f.call = None
        self.pop(st)
        if not st.frames:
            st.exc = exc
            self.exits.append(Exit("unwind", exc, st))
            return []
        r = self.throw(st, exc)
        return [st] if r is None else r

    def intrinsic(self, st, f, ins, name, av):
        d = ins[1]
        f.call = None
        r = None
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            n = st.const(av[2])
            if not isinstance(n, int):
                raise AnalysisError("memcpy of unknown size")
            self.copy(st, av[0], av[1], n)
        elif name.startswith("llvm.memset"):
            n = st.const(av[2])
            if not isinstance(n, int):
                res = self.mon.on_memset(self, st, av[0], av[1], n)
                if not res:
                    raise AnalysisError("memset of unknown size")
            elif n:
                rg = self.reg_of(st, av[0], "write", n)
                self.mon.on_bulk(self, st, rg, av[0][2], n, "store")
                if isinstance(av[1], int):
                    x = 0
                    for i in range(n):
                        x |= (av[1] & 255) << (8 * i)
                    self.write_cell(st, rg.rid, av[0][2], n, x)
                else:
                    self.write_cell(st, rg.rid, av[0][2], n, U)
        elif name.startswith("llvm.umul.with.overflow") or name.startswith("llvm.uadd.with.overflow"):
            bits = int(name.rsplit(".i", 1)[1])
            a, b = st.const(av[0]), st.const(av[1])
            op = "mul" if "umul" in name else "add"
            if isinstance(a, int) and isinstance(b, int):
                x = a * b if op == "mul" else a + b
                r = ("A", (mask(x, bits), int(x >> bits != 0)))
            else:
                r = ("A", (self.binop(st, op, a, b, bits), ("C", "ovf", op, (a, b))))
        elif name.startswith("llvm.expect") or name.startswith("llvm.launder") or name.startswith("llvm.strip"):
            r = av[0]
        elif name.startswith("llvm.eh.typeid.for"):
            c = ins[5][0]
            r = self.tid(c[1] if c[0] == "g" else 0)
        elif name.startswith("llvm.is.constant"):
            r = 0
        elif name.startswith("llvm.objectsize"):
            r = MASK64
        elif name.startswith("llvm.trap") or name.startswith("llvm.ubsantrap"):
            st.ev("terminate", "trap")
            self.exits.append(Exit("terminate", None, st, "trap"))
            return []
        elif name.startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.invariant", "llvm.x86.sse2.pause", "llvm.prefetch", "llvm.donothing", "llvm.var.annotation", "llvm.experimental.noalias")):
            r = None
        elif name.startswith("llvm.threadlocal.address"):
            r = av[0]
        elif name.startswith(("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin")):
            r = ("E", name, av[0], av[1])
        else:
            raise AnalysisError("intrinsic " + name)
        if d >= 0:
            f.regs[d] = r if r is not None else U
        if ins[8]:
            return self.goto(st, f, ins[8][0])
        f.ip += 1
        return None

    # ------------------------------------------------------------------ runtime library
    def builtin(self, st, fn, av, nounwind):
        n = fn.name
        if n in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t",
                 "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t", "_ZnamSt11align_val_tRKSt9nothrow_t",
                 "malloc", "aligned_alloc"):
            return self.mon.on_new(self, st, n, av)
        if n.startswith("_ZdlPv") or n.startswith("_ZdaPv") or n == "free":
            return self.mon.on_delete(self, st, n, av)
        if n == "__cxa_begin_catch":
            st.caught = st.caught + (st.exc,)
            return [(st, "ret", av[0])]
        if n == "__cxa_end_catch":
            st.caught = st.caught[:-1]
            return [(st, "ret", None)]
        if n == "__cxa_rethrow":
            return [(st, "throw", st.caught[-1] if st.caught else "unknown")]
        if n == "__cxa_allocate_exception":
            r = st.new_region("exception", None, "heap", "sym", {"exception": True})
            return [(st, "ret", P(r.rid))]
        if n == "__cxa_throw":
            st.ev("cxa_throw", self._gname(av[1]))
            return [(st, "throw", self._gname(av[1]))]
        if n in ("__cxa_free_exception",):
            return [(st, "ret", None)]
        if n in ("_ZSt9terminatev", "abort", "_ZSt10unexpectedv", "__clang_call_terminate"):
            return [(st, "terminate", n)]
        if n in ("__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__assert_rtn"):
            return [(st, "terminate", "assert")]
        if n in ("_ZSt28__throw_bad_array_new_lengthv", "__cxa_throw_bad_array_new_length"):
            st.ev("cxa_throw", "_ZTISt20bad_array_new_length")
            return [(st, "throw", "_ZTISt20bad_array_new_length")]
        if n == "_ZSt17__throw_bad_allocv":
            return [(st, "throw", "_ZTISt9bad_alloc")]
        if n.startswith("_ZNSt9bad_alloc") or n.startswith("_ZNSt20bad_array_new_length") or n.startswith("_ZNSt9exception"):
            return [(st, "ret", None)]
        if n in ("sched_yield", "_ZNSt11this_thread5yieldEv", "__gthread_yield", "pthread_yield"):
            return [(st, "ret", 0)]
        if n in ("nanosleep", "usleep", "clock_nanosleep", "pthread_mutex_lock", "pthread_mutex_unlock", "sleep"):
            st.ev("wait", n)
            return [(st, "ret", 0)]
        if n == "__cxa_guard_acquire":
            return [(st, "ret", 0)]
        if n in ("__cxa_guard_release", "__cxa_guard_abort"):
            return [(st, "ret", None)]
        if n in ("memcpy", "memmove"):
            c = st.const(av[2])
            if isinstance(c, int):
                self.copy(st, av[0], av[1], c)
                return [(st, "ret", av[0])]
        return None

    def _gname(self, v):
        if is_ptr(v) and isinstance(v[1], str):
            return v[1][1:]
        return "unknown"


# ---------------------------------------------------------------------- canonical form for loop heads
def canon(st):
    rmap, smap, order = {}, {}, []

    def cv(v):
        if isinstance(v, tuple):
            if not v:
                return v
            if v[0] == "P":
                if isinstance(v[1], str):
                    return v
                i = rmap.get(v[1])
                if i is None:
                    i = rmap[v[1]] = len(rmap)
                    order.append(v[1])
                return ("P", i, v[2])
            if v[0] == "L":
                i = smap.get(v[1])
                if i is None:
                    i = smap[v[1]] = len(smap)
                return ("L", i, v[2], v[3])
            return tuple(cv(x) for x in v)
        if isinstance(v, frozenset):
            return frozenset(cv(x) for x in v)
        return v
    out = []
    for i, f in enumerate(st.frames):
        top = i == len(st.frames) - 1
        live = f.fn.livein[f.block] if (top and f.fn.livein is not None) else None
        regs = tuple((k, cv(f.regs[k])) for k in sorted(f.regs) if live is None or k in live)
        out.append((f.fn.name, f.block, f.prev if not top else -1, f.ip if not top else 0, regs, tuple(cv(P(r)) for r in f.allocas)))
    out.append(tuple((k, cv(v)) for k, v in sorted(st.ghost.items(), key=lambda x: str(x[0]))))
    out.append(tuple(cv(e[:-1]) for e in st.trace if e[0] not in NOISE and not (e[0] == "lockrmw" and st.truth(e[3])) and not (e[0] == "lockload" and e[2] != "na")))
    for rid in sorted((r for r in st.mem if isinstance(r, str)), key=str):
        r = st.mem[rid]
        if r.kind != "func" and not r.meta.get("const"):
            cv(P(rid))
            out.append((rid, tuple((o, c[0], cv(c[1])) for o, c in sorted(r.cells.items()))))
    for rid in sorted(r for r in st.mem if isinstance(r, int) and st.mem[r].meta.get("root")):
        cv(P(rid))
    i = 0
    while i < len(order):
        r = st.mem.get(order[i])
        i += 1
        if r is None:
            continue
        if not r.live:
            out.append((i, "dead", r.kind))
            continue
        out.append((i, r.kind, tuple((o, c[0], cv(c[1])) for o, c in sorted(r.cells.items()))))
    out.append(tuple(sorted((i, st.facts.get(s)) for s, i in smap.items())))
    out.append(tuple(sorted(((str(cv(t)), v) for t, v in st.cmps.items() if _known(t, smap)), key=str)))
    out.append(st.exc)
    return hash(tuple(out)), tuple(out)


def _known(t, smap):
    if isinstance(t, tuple):
        if t and t[0] == "L":
            return t[1] in smap
        return all(_known(x, smap) for x in t)
    return True


NOISE = {"aload", "cas_fail", "fence", "load", "wait", "gacc", "atomicop"}


class Monitor:
    """Default, neutral behaviour; property modules refine it."""

    def fault(self, st, e):
        st.ev("fault", e.kind, e.msg)

    def alone(self, st):
        """Other threads do not interfere any more."""
        return False

    def on_load(self, eng, st, r, off, size, order):
        return None

    def on_store(self, eng, st, r, off, size, v, order):
        return False

    def on_bulk(self, eng, st, r, off, size, kind):
        pass

    def on_memset(self, eng, st, p, v, n):
        return False

    def on_rmw(self, eng, st, r, off, size, op, v, order):
        return None

    def on_cmpxchg(self, eng, st, r, off, size, cmp, new, so, fo, weak):
        return None

    def on_fence(self, eng, st, order, scope):
        if scope == 1:  # not a signal fence
            st.ev("fence", order)

    def on_call(self, eng, st, fn, av, nounwind):
        return None

    def on_extern(self, eng, st, fn, av, nounwind):
        return None

    def on_fnptr(self, eng, st, p, av, nounwind):
        raise AnalysisError("call through a function pointer token")

    def on_stack_death(self, eng, st, rid):
        pass

    def on_unreachable(self, eng, st):
        pass

    def catches(self, exc, ti):
        if exc == ti:
            return True
        up = {"_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc", "_ZTISt9exception"]}
        return ti in up.get(exc, [])

    # allocation: success and failure
    new_can_throw = True
    # a weak compare-exchange may fail for no reason
    spurious = True

    def on_new(self, eng, st, name, av):
        size = st.const(av[0])
        if name == "aligned_alloc":
            align, size = st.const(av[0]), st.const(av[1])
        else:
            align = st.const(av[1]) if "align_val_t" in name else 16
        out = []
        lo = size if isinstance(size, int) else (st.rng(av[0]) or (0,))[0]
        never = isinstance(lo, int) and lo >= 1 << 63  # no object is that large: such a request fails
        if self.new_can_throw or never:
            b = st.clone()
            if "nothrow" in name or name in ("malloc", "aligned_alloc"):
                out.append((b, "ret", 0))
            else:
                b.ev("throw", "_ZTISt9bad_alloc")
                out.append((b, "throw", "_ZTISt9bad_alloc"))
        if never:
            return out
        r = st.new_region("heap block", size if isinstance(size, int) else None, "heap", "undef",
                          {"new": name, "align": align, "size": size, "site": where(st)})
        st.ev("alloc", r.rid, name, size, align)
        out.append((st, "ret", P(r.rid)))
        return out

    def on_delete(self, eng, st, name, av):
        p = av[0]
        if p == 0:
            return [(st, "ret", None)]
        if not is_ptr(p):
            raise Fault("wild", "deallocation of an unknown pointer")
        r = st.mem[p[1]]
        if not r.live:
            raise Fault("freed", "%s freed twice" % r.name, r.rid)
        st.ev("free", r.rid, name, tuple(av))
        if p[2] != 0:
            raise Fault("badfree", "deallocation of an interior pointer of %s" % r.name, r.rid)
        if r.kind not in ("heap",):
            raise Fault("badfree", "deallocation of %s which is not heap memory" % r.name, r.rid)
        self.check_free(eng, st, r, name, av)
        st.w(r.rid).live = False
        return [(st, "ret", None)]

    def check_free(self, eng, st, r, name, av):
        pass
