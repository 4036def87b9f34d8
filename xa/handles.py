"""Typestate and effect analysis of the operations on shared/weak pointers and the atomic storage.

Every operation is analysed from an arbitrary state that satisfies the library's invariant
("counts = references held"), for every ownership/aliasing shape of its operands, and has to
re-establish it.  The number of other owners is a symbol, so the result is for every count.
"""
import collections
import copy

from .engine import Engine, Monitor, State, P, U, Fault, Exit, is_ptr, Region, where
from .ir import AnalysisError
from . import build
from . import ops as O
from .ops import mangle

I31 = 1 << 31
REL = ("release", "acq_rel", "seq_cst")
ACQ = ("acquire", "acq_rel", "seq_cst")


class Finding:
    __slots__ = ("props", "msg", "where", "op", "shape", "trace", "config", "key")

    def __init__(self, props, msg, where, op="", shape="", trace=(), key=None):
        self.props = props
        self.msg = msg
        self.where = where
        self.op = op
        self.shape = shape
        self.trace = trace
        self.key = key


TICKETS = set()  # not empty once a lock of a kind which the analysis does not know has been met
# how a user sees what an operation established
SEEN_BY = {"sp_get_": ("C13", "C14"), "sp_arrow_": ("C13", "C14"), "sp_deref_": ("C13", "C14"), "sp_index_": ("C13", "C14"), "sp_use_count_": ("C01",), "wp_use_count_": ("C01",),
           "sp_owner_": ("C13", "C14"), "wp_owner_": ("C13", "C14")}
LOCK = {"C23", "C24", "C25", "C26", "C33", "C34", "C38"}


def one_word(mon, off, draws=False):
    """The rules know locks which are one word, free when it is 0. Tickets drawn from one word and called in another are no such lock."""
    mon.lockwords = getattr(mon, "lockwords", frozenset()) | {off}
    mon.draws = getattr(mon, "draws", False) or draws
    if mon.draws and len(mon.lockwords) > 1:
        TICKETS.add(True)


class HMon(Monitor):
    """Records the effects on counts, control blocks, objects, operands and locks."""

    def __init__(self, fam, roles, throws=True):
        self.fam = fam
        self.roles = roles  # {offset in the control block: 's'|'w'}
        self.throws = throws
        self.new_can_throw = throws
        self.lay = None
        self.solo = None         # after so many steps on shared memory the other threads stop, see alone()
        self.sections = None     # what another thread may do between two critical sections, see between()

    # ---- helpers
    def role(self, r, off):
        cb = r.meta.get("cb")
        if cb is None:
            return None
        return self.roles.get(off - r.meta["cboff"])

    def bound(self, st, i, role):
        """The count cannot be lower than the references held by this run."""
        own_s = st.ghost.get(("own", i, "s"), 0)
        if role == "s":
            return max(own_s, 0)
        return max(st.ghost.get(("own", i, "w"), 0) + (1 if own_s >= 1 else st.ghost.get(("grp", i), 0)) + (1 if self.dying(st, i) else 0), 0)

    def shared_cnt(self, r, off):
        return self.fam == "A" and self.role(r, off)

    def upd(self, st, i, role, delta, old, how, order):
        st.ev("cnt", i, role, delta, old, how, order)
        k = ("own", i, role)
        own = st.ghost.get(k, 0)
        if role == "s" and delta == -1 and own == 1:
            # giving up our last strong reference: the weak reference of the strong owners is
            # ours only if we are the last owner, which the facts about `old` tell
            st.ghost[("group", i)] = old
        st.ghost[k] = own + delta

    def fault(self, st, e):
        r = st.mem.get(e.rid) if e.rid is not None else None
        tag = None
        if r is not None:
            tag = r.kind if "cb" not in r.meta else "cb"
            if r.meta.get("operand"):
                tag = "operand"
            if r.meta.get("objof") is not None:
                tag = "obj"
        st.ev("fault", e.kind, e.msg, tag)

    # ---- running alone
    def alone(self, st):
        return self.solo is not None and st.ghost.get("shared", 0) >= self.solo

    def step(self, st):
        """A step on shared memory. True if it happens without interference."""
        if self.solo is None:
            return False
        if self.alone(st):
            return True
        st.ghost["shared"] = st.ghost.get("shared", 0) + 1
        return False

    def value(self, st, i, ro):
        """The value of a count which only this thread changes now."""
        k = ("now", i, ro)
        if k not in st.ghost:
            st.ghost[k] = 0 if self.dying(st, i) and ro == "s" else st.sym(32, lo=self.bound(st, i, ro), hi=I31)
        return st.ghost[k]

    def lockvalue(self, st, r, size):
        """The lock: ours if this thread took it, otherwise free."""
        k = ("lock", r.rid)
        last = st.ghost.get(k)
        if last is None:
            return 0
        new, old = last
        return new if old is None or st.const(old) == 0 else 0

    # ---- memory effects
    def access(self, eng, st, r, off, size, rw, order="na"):
        if r.meta.get("operand"):
            st.ev("oper", r.rid, off, size, rw, order)
        rng = r.meta.get("objrange")
        if rng:
            for lo, hi, i in rng:
                if off < hi and off + size > lo:
                    st.ev("oacc", i, off, rw, st.ghost.get(("own", i, "s"), 0), self.dying(st, i))

    def glob(self, st, r, rw):
        """Mutable state of the program besides the operands: its contents are anything."""
        if r.kind != "global" or r.meta.get("const"):
            return False
        st.ev("gacc", r.name, rw)
        return True

    def plainly(self, st, order, what):
        if order != "na" and self.fam == "L":
            st.ev("atomicop", what)

    def on_fence(self, eng, st, order, scope):
        if scope == 1:
            self.plainly(st, order, "fence")
        Monitor.on_fence(self, eng, st, order, scope)

    def dying(self, st, i):
        g = st.ghost.get(("group", i))
        return g is not None and st.const(g) == 1

    def on_load(self, eng, st, r, off, size, order):
        if self.glob(st, r, "r"):
            return st.sym(size * 8)
        ro = self.role(r, off)
        if not self.lockcell(r, off, size):
            self.plainly(st, order, "load")
        if ro:
            i = r.meta["cb"]
            if self.fam == "A" and self.step(st):
                return self.value(st, i, ro)
            if self.fam == "A":
                st.ev("aload", i, ro, order)
                if order == "na":
                    st.ev("plainread", i, ro)
                if self.dying(st, i) and ro == "s":
                    return 0
                v = st.sym(32, lo=self.bound(st, i, ro), hi=I31)
                st.ghost[("seen", i, ro)] = v
                return v
            return None
        if self.lockcell(r, off, size):
            if self.step(st):
                return self.lockvalue(st, r, size)
            st.ev("lockload", r.rid, order)
            v = st.sym(size * 8, hi=1)
            return v
        self.access(eng, st, r, off, size, "r", order)
        return None

    def between(self, eng, st, r):
        """A critical section ends: notes the stored pointer. Another thread may replace it before the next one."""
        lo = r.meta["storage"][0]
        lay = self.lay
        if lay is None:
            return
        got = tuple(st.const(eng.read_cell(st, r, lo + o, 8)) for o in (lay.h_cb, lay.h_ptr))
        then = got
        if self.sections is not None and not st.ghost.get("between"):
            other, cbs = self.sections   # the pointer it stores if there is none, the control blocks
            st.ghost["between"] = True
            then = (0, 0) if got[0] != 0 else other
            for pair, d in ((got, -1), (then, 1)):
                if pair[0] in cbs:
                    i = cbs.index(pair[0])
                    st.ghost[("own", i, "s")] = st.ghost.get(("own", i, "s"), 0) + d
                    st.ev("env", i, d)
            w = st.w(r.rid)
            w.cells[lo + lay.h_cb] = (8, then[0])
            w.cells[lo + lay.h_ptr] = (8, then[1])
        st.ev("section", got, then)

    def lockcell(self, r, off, size):
        s = r.meta.get("storage")
        if s is None:
            return False
        lo, hi = s
        if lo <= off < hi:
            return False
        one_word(self, off)
        return True

    def delta(self, st, old, new):
        old, new = st.const(old), st.const(new)
        if isinstance(old, int) and isinstance(new, int):
            d = (new - old) & 0xffffffff
        elif isinstance(old, tuple) and isinstance(new, tuple) and old[0] == "L" and new[0] == "L" and old[1] == new[1]:
            d = (new[2] - old[2]) & 0xffffffff
        else:
            return None
        return d - (1 << 32) if d >= 1 << 31 else d

    def on_store(self, eng, st, r, off, size, v, order):
        if self.glob(st, r, "w"):
            return True
        ro = self.role(r, off)
        if not self.lockcell(r, off, size):
            self.plainly(st, order, "store")
        if ro:
            i = r.meta["cb"]
            cur = eng.read_cell(st, r, off, size)
            if self.fam == "A":
                st.ev("badupd", i, ro, "a store (not a read-modify-write) of order %s" % order)
                return True
            d = self.delta(st, cur, v)
            if d is None:
                st.ev("badupd", i, ro, "the stored value is not the old count plus or minus one")
                return False
            self.upd(st, i, ro, d, cur, "plain", order)
            return False
        if self.lockcell(r, off, size):
            st.ev("lockstore", r.rid, v, order)
            if self.solo is not None:
                st.ghost[("lock", r.rid)] = (v, None)
            if st.const(v) == 0:
                self.between(eng, st, r)
            return True
        self.access(eng, st, r, off, size, "w", order)
        return False

    def on_bulk(self, eng, st, r, off, size, kind):
        for o in range(off, off + size):
            if self.role(r, o):
                st.ev("badupd", r.meta["cb"], self.role(r, o), "bulk %s of the counter" % kind)
        self.access(eng, st, r, off, size, "r" if kind == "load" else "w")

    def on_rmw(self, eng, st, r, off, size, op, v, order):
        if self.glob(st, r, "w"):
            return st.sym(size * 8)
        ro = self.role(r, off)
        if not self.lockcell(r, off, size):
            self.plainly(st, order, "read-modify-write")
        if ro and self.fam == "A":
            i = r.meta["cb"]
            alone = self.step(st)
            old = self.value(st, i, ro) if alone else st.sym(32, lo=self.bound(st, i, ro), hi=I31)
            if self.dying(st, i) and ro == "s":
                old = 0
            if alone:
                st.ghost[("now", i, ro)] = eng.rmw_new(st, op, old, v, 32)
            d = None
            if isinstance(v, int) and op in ("add", "sub"):
                d = v if v < (1 << 31) else v - (1 << 32)
                if op == "sub":
                    d = -d
            if d is None:
                st.ev("badupd", i, ro, "atomic %s" % op)
            else:
                self.upd(st, i, ro, d, old, "rmw", order)
            return old
        if ro:
            i = r.meta["cb"]
            cur = eng.read_cell(st, r, off, size)
            new = eng.rmw_new(st, op, cur, v, 32)
            d = self.delta(st, cur, new)
            if d is None:
                st.ev("badupd", i, ro, "atomic %s" % op)
            else:
                self.upd(st, i, ro, d, cur, "rmw", order)
            eng.write_cell(st, r.rid, off, size, new)
            return cur
        if self.lockcell(r, off, size):
            one_word(self, off, op == "add")
            old = self.lockvalue(st, r, size) if self.step(st) else st.sym(size * 8, hi=1)
            new = v if op == "xchg" else eng.rmw_new(st, op, old, v, size * 8)
            st.ev("lockrmw", r.rid, new, old, order)
            if self.solo is not None:
                st.ghost[("lock", r.rid)] = (new, old if not self.mine(st, r) else None)
            n = st.const(new)
            if n == 0 or (isinstance(n, tuple) and st.truth(n) is False):
                self.between(eng, st, r)
            return old
        if r.meta.get("operand"):
            st.ev("oper", r.rid, off, size, "w", order)
        return None

    def on_cmpxchg(self, eng, st, r, off, size, cmp, new, so, fo, weak):
        if self.glob(st, r, "w"):
            b = st.clone()
            return [(st, cmp, 1), (b, b.sym(size * 8), 0)]
        ro = self.role(r, off)
        if not self.lockcell(r, off, size):
            self.plainly(st, so, "compare-exchange")
        if ro and self.fam == "A":
            i = r.meta["cb"]
            if self.step(st):
                return self.exchanged(eng, st, self.value(st, i, ro), ("now", i, ro), i, ro, cmp, new, so)
            b = st.clone()
            out = []
            # success
            lo = self.bound(st, i, ro)
            ok = True
            if self.dying(st, i) and ro == "s":
                ok = st.assume(eng.icmp(st, "eq", cmp, 0), True) if not isinstance(cmp, int) else cmp == 0
            elif isinstance(cmp, int):
                ok = cmp >= lo
            else:
                ok = st._bound(cmp, lo=lo) if cmp[0] == "L" else True
            if ok:
                d = self.delta(st, cmp, new)
                if d is None:
                    st.ev("badupd", i, ro, "compare-exchange to an unrelated value")
                else:
                    self.upd(st, i, ro, d, cmp, "cas", so)
                out.append((st, cmp, 1))
            old = b.sym(32, lo=lo, hi=I31)
            if self.dying(b, i) and ro == "s":
                old = 0
            fail = True
            if not weak:
                t = eng.icmp(b, "eq", old, cmp)
                fail = b.assume(t, False) if not isinstance(t, int) else not t
            if fail:
                b.ev("cas_fail", i, ro, fo)
                b.ghost[("seen", i, ro)] = old
                out.append((b, old, 0))
            return out
        if ro:
            i = r.meta["cb"]
            cur = eng.read_cell(st, r, off, size)
            t = eng.icmp(st, "eq", cur, cmp)
            b = st.clone()
            out = []
            if (st.assume(t, True) if not isinstance(t, int) else t):
                d = self.delta(st, cur, new)
                if d is None:
                    st.ev("badupd", i, ro, "compare-exchange to an unrelated value")
                else:
                    self.upd(st, i, ro, d, cur, "cas", so)
                eng.write_cell(st, r.rid, off, size, new)
                out.append((st, cur, 1))
            if (b.assume(t, False) if not isinstance(t, int) else not t) or weak:
                out.append((b, cur, 0))
            return out
        if self.lockcell(r, off, size):
            if self.step(st):
                old = self.lockvalue(st, r, size)
                if old != cmp:
                    return [(st, old, 0)]
                st.ghost[("lock", r.rid)] = (new, None)
                return [(st, old, 1)]
            b = st.clone()
            if self.solo is not None:
                st.ghost[("lock", r.rid)] = (new, None)
            st.ev("lockrmw", r.rid, new, cmp, so)
            if st.const(new) == 0:
                self.between(eng, st, r)
            old = b.sym(size * 8, hi=1)
            t = eng.icmp(b, "eq", old, cmp)
            res = [(st, cmp, 1)]
            if weak or (b.assume(t, False) if not isinstance(t, int) else not t):
                b.ev("cas_fail", r.rid, "lock", fo)
                res.append((b, old, 0))
            return res
        return None

    def mine(self, st, r):
        last = st.ghost.get(("lock", r.rid))
        return last is not None and (last[1] is None or st.const(last[1]) == 0) and st.const(last[0]) != 0

    def exchanged(self, eng, st, old, key, i, ro, cmp, new, order):
        """Compare-exchange of a count without interference: fails only if the value differs."""
        t = eng.icmp(st, "eq", old, cmp)
        b = st.clone()
        out = []
        if st.assume(t, True) if not isinstance(t, int) else t:
            st.ghost[key] = new
            d = self.delta(st, cmp, new)
            if d is not None:
                self.upd(st, i, ro, d, cmp, "cas", order)
            out.append((st, cmp, 1))
        if b.assume(t, False) if not isinstance(t, int) else not t:
            out.append((b, old, 0))
        return out

    # ---- user code
    def on_extern(self, eng, st, fn, av, nounwind):
        n = fn.name
        if n in ("ev_ctor", "ev_copy", "ev_move", "ev_args"):
            ty = self.tname(eng, st, av[1])
            out = []
            if self.throws:
                b = st.clone()
                b.ev("throw", "user")
                b.ev("ctorfail", av[0], ty)
                out.append((b, "throw", "user"))
            st.ev(n[3:], av[0], ty, tuple(av[2:]))
            out.append((st, "ret", None))
            return out
        if n in ("evn_ctor", "evn_copy", "evn_move"):
            st.ev(n[4:], av[0], self.tname(eng, st, av[1]), tuple(av[2:]))
            return [(st, "ret", None)]
        if n in ("_ZNSolsEPKv", "_ZNSo9_M_insertIPKvEERSoT_"):
            st.ghost["printed"] = st.ghost.get("printed", ()) + (av[1],)
            return [(st, "ret", av[0])]
        if n == "ev_printed":
            pr = st.ghost.get("printed", ())
            return [(st, "ret", pr[0] if len(pr) == 1 else U)]
        if n == "ev_dtor":
            st.ev("dtor", av[0], self.tname(eng, st, av[1]))
            return [(st, "ret", None)]
        if n == "ev_del":
            st.ev("del", av[0], st.const(av[1]), self.tname(eng, st, av[2]))
            return [(st, "ret", None)]
        if n in ("ev_dcopy", "ev_dmove", "ev_dassign", "ev_mark"):
            st.ev(n[3:], *av)
            return [(st, "ret", None)]
        if n == "ev_alloc":
            sz = [st.const(x) for x in av]
            out = []
            if self.throws:
                b = st.clone()
                b.ev("throw", "user")
                out.append((b, "throw", "user"))
            total = sz[1] * sz[2] if isinstance(sz[1], int) and isinstance(sz[2], int) else None
            r = st.new_region("user allocation", total, "uheap", "undef", {"id": sz[0], "n": sz[1], "esz": sz[2], "al": sz[3], "site": where(st)})
            st.ev("alloc", r.rid, "user", sz[0], tuple(sz[1:]))
            out.append((st, "ret", P(r.rid)))
            return out
        if n == "ev_dealloc":
            a = [st.const(x) for x in av]
            p = a[1]
            if not is_ptr(p):
                raise Fault("wild", "deallocation of an unknown pointer")
            r = st.mem[p[1]]
            if not r.live:
                raise Fault("freed", "%s freed twice" % r.name, r.rid)
            st.ev("free", r.rid, "user", (a[0], p, a[2], a[3], a[4]))
            st.w(r.rid).live = False
            return [(st, "ret", None)]
        if n == "ev_acopy":
            out = []
            if self.throws:
                b = st.clone()
                b.ev("throw", "user")
                out.append((b, "throw", "user"))
            st.ev("acopy", *av)
            out.append((st, "ret", None))
            return out
        if n == "ev_reg":
            self.reg(st, av[0], av[1], st.const(av[2]))
            return [(st, "ret", None)]
        if n == "ev_tr":
            self.transfer(st, av[0], av[1], av[2], st.const(av[3]))
            return [(st, "ret", None)]
        if n == "__dynamic_cast":
            src = av[0]
            key = "dyn:%s:%s" % (av[2][1], src)
            b = st.clone()
            if key not in st.mem:
                r = Region(key, "dynamic_cast result", None, "obj", "sym", {"dyn": av[2][1]})
                st.mem[key] = r
                st.owned.add(key)
            st.ev("dyncast", src, av[2], P(key))
            b.ev("dyncast", src, av[2], 0)
            return [(st, "ret", P(key)), (b, "ret", 0)]
        return None

    def tname(self, eng, st, p):
        if is_ptr(p) and isinstance(p[1], str):
            r = st.mem[p[1]]
            c = [r.cells[o][1] for o in sorted(r.cells)]
            s = ""
            for x in c:
                if not isinstance(x, int) or x == 0:
                    break
                s += chr(x)
            return s
        return "?"

    def reg(self, st, cb, who, kind):
        k = ("reg", cb)
        s = st.ghost.get(k, frozenset())
        grp = "s" if kind < 2 else "w"
        e = (grp, who)
        if kind in (0, 2):
            if e in s:
                st.ev("badreg", cb, "announced twice", e)
            st.ghost[k] = s | {e}
        else:
            if e not in s:
                st.ev("badreg", cb, "withdrawn without having been announced", e)
            st.ghost[k] = s - {e}
        st.ev("reg", cb, who, kind)

    def transfer(self, st, cb, dst, src, kind):
        k = ("reg", cb)
        s = st.ghost.get(k, frozenset())
        grp = "s" if kind == 0 else "w"
        if (grp, src) not in s:
            st.ev("badreg", cb, "moved from an address that was not announced", (grp, src))
        if (grp, dst) in s:
            st.ev("badreg", cb, "moved to an address that is announced already", (grp, dst))
        st.ghost[k] = (s - {(grp, src)}) | {(grp, dst)}
        st.ev("tr", cb, dst, src, kind)

    def on_stack_death(self, eng, st, rid):
        pass

    def check_free(self, eng, st, r, name, av):
        pass


class Layout:
    """Facts about the tree under analysis that are derived by analysing its accessors."""

    def __init__(self):
        self.h_cb = self.h_ptr = None
        self.roles = {}
        self.size = {}
        self.storage = {}


class Harness:
    def __init__(self, module, fam):
        self.m = module
        self.fam = fam
        self.base = {}
        self.lay = Layout()
        self.stats = {"runs": 0, "paths": 0, "instructions": 0, "forks": 0, "merged": 0}
        self.functions = {}
        self.derive()

    def engine(self, mon):
        e = Engine(self.m, mon)
        return e

    def done(self, e):
        self.stats["runs"] += 1
        for k in ("paths", "instructions", "forks", "merged"):
            self.stats[k] += e.stats[k]
        self.functions.update(e.functions)

    def single(self, fname, args, st, mon=None):
        """Run a function that must have exactly one (normal) outcome."""
        mon = mon or HMon(self.fam, {}, throws=False)
        mon.spurious = False
        e = self.engine(mon)
        ex = e.run(fname, args, st)
        self.done(e)
        ok = [x for x in ex if x.kind == "ret"]
        if len(ok) != 1 or len(ex) != 1:
            bad = [x for x in ex if x.kind != "ret"]
            msg = ""
            for b in bad:
                for t in b.state.trace:
                    if t[0] == "fault":
                        msg = t[2] + " at %s:%s" % t[-1][0][1:]
            err = AnalysisError("set-up function %s has %d outcomes %s" % (fname, len(ex), msg))
            # an accessor whose outcome depends on a variable which is no part of its operands
            err.findings = [Finding(("C36", "C30") if t[2] == "w" and fname.startswith(("count_", "uc_", "gt_", "ow_", "get_", "own_")) else ("C36",), "%s the variable %s, which is no part of its operands" % ("writes" if t[2] == "w" else "reads", t[1]), t[-1], fname, fname, x.state.trace)
                            for x in ex for t in x.state.trace if t[0] == "gacc"]
            raise err
        return ok[0].value, ok[0].state

    def sizeof(self, t):
        k = mangle(t.replace("const ", "")).replace("<", "").replace(">", "")
        if k not in self.lay.size:
            v, _ = self.single("sz_" + k, [], State())
            self.lay.size[k] = v
        return self.lay.size[k]

    def operand(self, st, name, size=16):
        r = st.new_region(name, size, "operand", "undef", {"operand": name, "root": True})
        return r.rid

    def derive(self):
        # handle layout: find the words holding the owner and the object
        st = State()
        h = self.operand(st, "h")
        self.lay.hsize = self.sizeof("SP<A>")
        st.mem[h].size = self.lay.hsize
        _, st = self.single("b_A_0", [P(h)], st)
        cells = dict(st.mem[h].cells)
        own, _ = self.single("owner_A", [P(h)], st.clone())
        for o, (sz, v) in cells.items():
            if v == own:
                self.lay.h_cb = o
            elif is_ptr(v):
                self.lay.h_ptr = o
        if self.lay.h_cb is None or self.lay.h_ptr is None:
            raise AnalysisError("cannot find the owner/object words of a shared pointer")
        cbp = own
        # counters: use_count() reads the strong one
        cnt = {}
        for o, (sz, v) in st.mem[cbp[1]].cells.items():
            if sz == 4 and isinstance(v, int):
                cnt[o] = v
        roles = {}
        for o in cnt:
            s2 = st.clone()
            s2.w(cbp[1]).cells[o] = (4, 12345)
            v, _ = self.single("count_A", [P(h)], s2)
            if v == 12345:
                roles[o - cbp[2]] = "s"
        # what making a weak pointer and copying a shared one change
        s2 = st.clone()
        wk = self.operand(s2, "wk")
        _, s3 = self.single("w_A", [P(wk), P(h)], s2)
        inw = [o for o in cnt if s3.mem[cbp[1]].cells[o][1] != cnt[o]]
        named = [o for o in cnt if o - cbp[2] in roles]
        if not named or (len(named) == 1 and named[0] in inw): # use_count is wrong for some counts, or not a plain read
            s2, seen, uses = st.clone(), [], []
            for n in range(3):
                seen.append({o: s2.mem[cbp[1]].cells[o][1] for o in cnt})
                uses.append(self.single("count_A", [P(h)], s2.clone())[0])
                d = self.operand(s2, "cp%d" % n)
                _, s2 = self.single("sp_copy_A", [P(d), P(h)], s2)
            inc = [o for o in cnt if seen[1][o] != cnt[o]]
            if len(inc) == 1 and inc[0] not in named:
                o = inc[0]
                plain = [x[o] for x in seen] == [1, 2, 3]
                got = []
                for n in (1, 2, 3):
                    s2 = st.clone()
                    s2.w(cbp[1]).cells[o] = (4, n)
                    got.append(self.single("count_A", [P(h)], s2)[0])
                # a counter that starts at one is not an owner count in disguise unless one to three owners are told as such
                if got == [1, 2, 3] or (plain and uses != [1, 2, 3]):
                    roles = {o - cbp[2]: "s"}
        for o in inw:
            if o - cbp[2] not in roles:
                roles[o - cbp[2]] = "w"
        if sorted(roles.values()) != ["s", "w"]:
            raise AnalysisError("cannot identify the reference counters in the control block: %r" % roles)
        if any(cnt[o + cbp[2]] != 1 for o in roles):
            self.lay.badinit = {o: cnt[o + cbp[2]] for o in roles}
        self.lay.roles = roles
        self.lay.off = {v: k for k, v in roles.items()}
        # weak pointers have the same two words
        wc = s3.mem[wk].cells
        if wc.get(self.lay.h_cb, (0, 0))[1] != cbp:
            raise AnalysisError("weak pointer layout differs")

    # ------------------------------------------------------------------ atomic storage
    def sizeof_st(self, T):
        self.storage_layout(T)
        return self.lay.storage[T][1]

    def storage_layout(self, T):
        """Finds the pointer's two words in the storage; the rest of it is the lock."""
        if T in self.lay.storage:
            return
        size, _ = self.single("sz_ST_" + mangle(T), [], State())
        st = State()
        h = self.operand(st, "h", self.lay.hsize)
        _, st = self.single("b_%s_0" % mangle(T), [P(h)], st)
        want = (st.mem[h].cells[self.lay.h_cb][1], st.mem[h].cells[self.lay.h_ptr][1])
        d = self.operand(st, "storage", size)
        _, st = self.single("bst_" + mangle(T), [P(d), P(h)], st)
        off = None
        cells = st.mem[d].cells
        for o in cells:
            b = o - self.lay.h_cb
            if cells[o][1] == want[0] and cells.get(b + self.lay.h_ptr, (0, None))[1] == want[1]:
                off = b
        if off is None:
            raise AnalysisError("cannot find the pointer in the atomic storage")
        rest = {o: c for o, c in cells.items() if not off <= o < off + self.lay.hsize}
        self.lay.storage[T] = (off, size, rest)

    def storage_region(self, st, T, v):
        self.storage_layout(T)
        off, size, rest = self.lay.storage[T]
        r = st.new_region(v, size, "operand", "undef", {"operand": v, "root": True, "storage": (off, off + self.lay.hsize)})
        r.cells.update(rest)
        return r.rid, off

    # ------------------------------------------------------------------ entry states
    def base_state(self, blocks):
        """blocks: tuple of (handle type, variant). Returns (state, [(cb token, obj token, created type)])."""
        if blocks in self.base:
            st, info = self.base[blocks]
            return st.clone(), info
        st = State()
        info = []
        for T, var in blocks:
            h = self.operand(st, "builder", self.lay.hsize)
            before = set(st.mem)
            _, st = self.single("b_%s_%d" % (mangle(T), var), [P(h)], st, HMon(self.fam, {}, throws=False))
            c = st.mem[h].cells
            cb, ob = c[self.lay.h_cb][1], c[self.lay.h_ptr][1]
            ct = O.BUILDERS[T][var][0]
            info.append((cb, ob, ct))
            del st.mem[h]
        for rid in list(st.mem):
            if isinstance(rid, int) and st.mem[rid].kind == "stack":
                del st.mem[rid]
        st.trace = ()
        st.ghost = {}
        for i, (cb, ob, ct) in enumerate(info):
            r = st.w(cb[1])
            r.meta = dict(r.meta, cb=i, cboff=cb[2], root=True)
            # the complete object: the address range of the created type
            size = self.sizeof(ct)
            full = ob
            T = blocks[i][0]
            if T in ("B1", "B2", "N2", "const N2", "V"):
                U_ = {"B1": "D", "B2": "D", "N2": "ND", "const N2": "ND", "V": "VD"}[T]
                z = P(ob[1], 0)
                if st.mem[ob[1]].kind == "heap" and ob[1] != cb[1]:
                    full = P(ob[1], 0)
                else:
                    # in place: invert the upcast
                    full = None
                    for cand in range(0, st.mem[ob[1]].size):
                        try:
                            if self.up(st, U_, T, P(ob[1], cand)) == ob:
                                full = P(ob[1], cand)
                                break
                        except AnalysisError:
                            continue
                    if full is None:
                        raise AnalysisError("cannot locate the complete object")
            r = st.w(ob[1])
            r.meta = dict(r.meta, objrange=r.meta.get("objrange", ()) + ((full[2], full[2] + size, i),), root=True)
            if ob[1] != cb[1]:
                r.meta["objof"] = i
            info[i] = (cb, ob, ct, full)
        self.base[blocks] = (st, info)
        st.owned = set()
        return st.clone(), info

    def quiet(self, st):
        s = st.clone()
        s.trace = ()
        s.ghost = {}
        return s

    def up(self, st, U_, T, p):
        if p == 0:
            return 0
        if U_ == T or mangle(T).endswith("void") and U_ == "A":
            return p
        key = "up_%s_%s" % (mangle(U_), mangle(T))
        if key not in self.m.funcs:
            return p
        v, _ = self.single(key, [p], self.quiet(st), HMon("L", {}, throws=False))
        return v


# ---------------------------------------------------------------------- shapes
def shapes(op, fam):
    """Enumerates ownership/aliasing shapes of the operands of an op."""
    hs = [(k, v, t) for k, v, t in op.params if k in ("SP", "WP", "ST")]
    objs = [(k, v, t) for k, v, t in op.params if k == "obj"]
    ptrs = [(k, v, t) for k, v, t in op.params if k == "ptr"]
    out = []
    n = len(hs)
    if objs:
        # object created by control block 0, or by nobody
        for owned in ("owned", "unowned"):
            for p in (["obj", 0] if ptrs else [None]):
                out.append({"h": {}, "obj": owned, "ptr": p, "alias": None})
        return out
    cand1 = ["E", "1m", "1a", "1n", "0a"]
    if n == 0:
        combos = [()]
    elif n == 1:
        combos = [(c,) for c in cand1]
    elif n == 2:
        combos = [(a, b) for a in cand1 for b in ["E", "1m", "1a", "1n", "2m", "2n", "0a", "2s"]]
    else:
        # storage compare-exchange: stored, expected, new
        combos = [(a, b, c) for a in ["E", "1m", "1a"] for b in ["E", "1m", "1a", "2m", "2s", "0a"] for c in ["E", "1m", "2m", "3m", "3s"]]
    # an upcast to a virtual base reads the object, so it has to be a real one there
    combos = [c for c in combos if not any(x[1:] == "s" and t == "VD" for x, (_, _, t) in zip(c, hs))]
    for c in combos:
        out.append({"h": dict(zip([v for _, v, _ in hs], c)), "alias": None, "ptr": None})
    if n == 2 and hs[0][0] == hs[1][0] and hs[0][2] == hs[1][2]:
        for c in cand1:
            out.append({"h": {hs[0][1]: c, hs[1][1]: c}, "alias": (hs[1][1], hs[0][1]), "ptr": None})
    if ptrs:
        out = [dict(o, ptr=p) for o in out for p in ("x", "self", 0)]
    return out


class S(dict):
    """Pre-state as seen by the specification."""
    pass


class Case:
    pass


def setup(H, op, shape, live, variant=0):
    """Builds the abstract entry state. live: 'alive' | 'dead' | 'any' for control blocks without a strong handle."""
    fam = H.fam
    lay = H.lay
    hs = [(k, v, t) for k, v, t in op.params if k in ("SP", "WP", "ST")]
    ncb = 0
    first_type = {}
    for k, v, t in hs:
        c = shape["h"][v]
        if c[0].isdigit() and c[0] != "0":
            i = int(c[0])
            ncb = max(ncb, i)
            first_type.setdefault(i, t)
            if c[1] == "m":
                first_type[i] = t if not first_type.get(("m", i)) else first_type[i]
                first_type[("m", i)] = True
    blocks = []
    for i in range(1, ncb + 1):
        t = first_type.get(i, "A")
        blocks.append((t, (variant + i - 1) % 2))
    objparam = [(v, t) for k, v, t in op.params if k == "obj"]
    if objparam:
        blocks = [(objparam[0][1], variant)]
    st, info = H.base_state(tuple(blocks))
    c = Case()
    c.S = s = S()
    c.handles = {}   # var -> (rid, offset, kind, type)
    c.info = info
    c.addr = {}
    args = []
    alias_objs = {}

    def alias_obj(tag, t):
        nonlocal st
        if t == "VD":
            tag += "(VD)"  # upcasts read it: it must be a real object
        if tag not in alias_objs:
            r = st.new_region("object " + tag, None if t != "VD" else H.sizeof(t), "obj", "sym", {"root": True})
            alias_objs[tag] = P(r.rid, 0)
            if t == "VD":
                _, st = H.single("mk_VD", [P(r.rid)], st, HMon(fam, {}, throws=False))
                st.trace = ()
        return alias_objs[tag]

    def conv_ptr(i, t):
        """address of the t subobject of the object of block i"""
        cb, ob, ct, full = info[i]
        bt = blocks[i][0]
        if bt == t:
            return ob
        # handle type differs from the builder's handle type: go through the created type
        r = H.up(st, ct, t, full)
        return r

    n_s = [0] * len(info)
    n_w = [0] * len(info)
    reg = [set() for _ in info]
    for k, v, t in op.params:
        if k in ("SP", "WP", "ST"):
            if shape.get("alias") and shape["alias"][0] == v:
                src = shape["alias"][1]
                c.handles[v] = c.handles[src]
                s[v] = s[src]
                args.append(("addr", src))
                continue
            code = shape["h"][v]
            if code == "E":
                pair = (0, 0)
            elif code == "0a":
                pair = (0, alias_obj("X", t))
            else:
                i = int(code[0]) - 1
                cb = info[i][0]
                if code[1] == "m":
                    pair = (cb, conv_ptr(i, t))
                elif code[1] == "a":
                    pair = (cb, alias_obj("X", t))
                elif code[1] == "n":
                    pair = (cb, 0)
                elif code[1] == "s":   # other owner, same object pointer as block 1 main
                    pair = (cb, conv_ptr(0, t) if len(info) else 0)
            if k == "ST":
                rid, off = H.storage_region(st, t, v)
            else:
                rid, off = H.operand(st, v, lay.hsize), 0
            r = st.w(rid)
            r.cells[off + lay.h_cb] = (8, pair[0])
            r.cells[off + lay.h_ptr] = (8, pair[1])
            c.handles[v] = (rid, off, k, t)
            s[v] = pair
            args.append(P(rid, 0))
            if pair[0]:
                i = [x[0] for x in info].index(pair[0])
                if k == "WP":
                    n_w[i] += 1
                    reg[i].add(("w", P(rid, off)))
                else:
                    n_s[i] += 1
                    reg[i].add(("s", P(rid, off)))
        elif k == "raw":
            kind = op.makes[v][0]
            sz = lay.hsize if kind != "ST" else H.sizeof_st(op.makes[v][1])
            rid = st.new_region(v, sz, "operand", "undef", {"operand": v, "root": True, "raw": True}).rid
            c.addr[v] = rid
            args.append(P(rid, 0))
        elif k == "ptr":
            p = shape["ptr"]
            if p == "x":
                val = alias_obj("Y", t)
            elif p == "self":
                src = [h for h in hs][0][1]
                val = s[src][1]
            elif p == "obj":
                val = P(info[0][3][1], info[0][3][2] + 4)
            else:
                val = 0
            s[v] = val
            args.append(val)
        elif k == "obj":
            cb, ob, ct, full = info[0]
            if shape["obj"] == "unowned":
                # a separate object which never got an owner: constructed by its own constructor
                r = st.new_region("unowned object", H.sizeof(t), "obj", "undef", {"root": True})
                _, st2 = H.single("mk_" + mangle(t), [P(r.rid)], st, HMon(fam, {}, throws=False))
                st = st2
                st.trace = ()
                s[v] = (0, 0)
                s[v + ".addr"] = P(r.rid)
                args.append(P(r.rid))
            else:
                s[v] = (cb, full)
                args.append(full)
    for i, a in enumerate(args):
        if isinstance(a, tuple) and a[0] == "addr":
            args[i] = P(c.handles[a[1]][0], 0)
    pre = st.clone()
    # counters
    c.e = []
    c.f = []
    for i, x in enumerate(info):
        cb = x[0]
        rid = cb[1]
        r = st.w(rid)
        strong = None
        dead = False
        if fam == "A":
            st.ghost[("own", i, "s")] = n_s[i]
            st.ghost[("own", i, "w")] = n_w[i]
            c.e.append(None)
            c.f.append(None)
        else:
            if n_s[i] == 0 and live in ("dead", "dying"):
                # dying: in the destructor of the object, the owners' weak reference is still there
                strong = 0
                c.e.append(0)
                dead = live == "dead"
            else:
                e = st.sym(32, lo=0 if n_s[i] else 1, hi=I31)
                c.e.append(e)
                strong = ("L", e[1], n_s[i], 32)
            f = st.sym(32, lo=0, hi=I31)
            c.f.append(f)
            r.cells[cb[2] + lay.off["s"]] = (4, strong)
            r.cells[cb[2] + lay.off["w"]] = (4, ("L", f[1], n_w[i] + (0 if dead else 1), 32))
            st.ghost[("own", i, "s")] = n_s[i]
            st.ghost[("own", i, "w")] = n_w[i]
            if dead and x[1][1] != rid:
                st.w(x[1][1]).live = False
        if fam == "T":
            st.ghost[("reg", cb)] = frozenset(reg[i])
        c.dead = getattr(c, "dead", [])
        c.dead.append(dead)
    c.n_s, c.n_w = n_s, n_w
    # the weak reference of the strong owners exists for sure
    c.group = [1 if (n_s[i] == 0 and (objparam or (fam != "A" and not c.dead[i]))) else 0 for i in range(len(info))]
    for i, g in enumerate(c.group):
        st.ghost[("grp", i)] = g
    c.args = args
    c.st = st
    s.same = lambda a, b: c.handles[a] == c.handles[b]
    s.up = lambda U_, T, p: H.up(pre, U_, T, p)
    s.ref = lambda fn, p: 0 if p == 0 else H.single(fn, [p], H.quiet(pre), HMon("L", {}, throws=False))[0]
    s.sizeof = H.sizeof
    s.optype = getattr(op, "optype", None)
    s.info = info
    return c


# ---------------------------------------------------------------------- rules
def bare(where_):
    for fn, f, l in where_:
        if "/code/xmem/" in (f or ""):
            return (fn, f, l)
    return where_[0] if where_ else ("?", "?", 0)


def show(v):
    if isinstance(v, tuple):
        if v and v[0] == "P":
            return "&%s+%s" % (v[1], v[2])
        if v and v[0] == "L":
            return "n%d%+d" % (v[1], v[2] if v[2] < (1 << (v[3] - 1)) else v[2] - (1 << v[3]))
        return "(" + ",".join(show(x) for x in v) + ")"
    return str(v)


def same_bool(eng, st, a, b):
    """Do two boolean tokens agree on this path?"""
    ta, tb = st.truth(a), st.truth(b)
    if ta is not None and tb is not None:
        return ta == tb
    if a == b:
        return True
    for v in (True, False):
        s = st.clone()
        if s.assume(a, v):
            if s.truth(b) is not v:
                return False
    return True


class LockTrack:
    """The lock along one path: who holds it, and whether what it protects is ordered by it."""

    def __init__(self, held=False):
        self.held = held
        self.n = self.un = 0
        self.pend = False    # taken, but nothing has acquired yet
        self.relf = False    # a release fence came after the last protected access

    def access(self):
        """A protected access. Returns messages."""
        self.relf = False
        if self.pend:
            self.pend = False
            return ["acquires the lock without acquire ordering"]
        return []

    def unlock(self, order):
        out = []
        if not self.held:
            out.append("unlocks a lock it does not hold")
        if order not in REL and not self.relf:
            out.append("unlocks with %s ordering" % order)
        self.held = False
        self.un += 1
        return out + self.access()

    def feed(self, st, e):
        """e: lockrmw, lockstore, lockload, cas_fail or fence event. Returns messages."""
        k = e[0]
        out = []
        if k == "fence":
            if e[1] in ACQ:
                self.pend = False
            if e[1] in REL:
                self.relf = True
        elif k == "lockrmw":
            _, rid, new, old, order = e[:5]
            new, old = st.const(new), st.const(old)
            if new == 0 or (isinstance(new, tuple) and st.truth(new) is False):
                out += self.unlock(order)
            elif old == 0:
                if self.held:
                    out.append(TWICE)
                self.pend = order not in ACQ
                self.relf = False
                self.held = True
                self.n += 1
            elif not isinstance(old, int):
                out.append("does not examine whether it acquired the lock")
                self.held = True
        elif k == "lockstore":
            v = st.const(e[2])
            if v == 0:
                out += self.unlock(e[3])
            else:
                out.append("takes the lock without an indivisible test")
                self.held = True
                self.n += 1
        elif k == "lockload" and e[2] == "na":
            out.append("reads the lock without an atomic operation")
        return out


TWICE = "acquires the lock which it holds already"


class Eval:
    def __init__(self, H, op, shape, live, case, eng):
        self.H, self.op, self.shape, self.live, self.c, self.eng = H, op, shape, live, case, eng
        self.out = []
        self.obl = collections.Counter()

    def ob(self, *props):
        """An obligation of these properties is examined."""
        for p in props:
            self.obl[p] += 1

    def f(self, props, msg, where_=None, st=None, key=None):
        if isinstance(props, str):
            props = (props,)
        self.out.append(Finding(tuple(props), msg, where_ or ((self.op.name, "", 0),), self.op.name, self.desc(),
                                st.trace if st is not None else (), key))

    def desc(self):
        return "%s family=%s operands=%s%s%s others=%s" % (
            self.op.name, self.H.fam, self.shape.get("h"), " same:%s=%s" % self.shape["alias"] if self.shape.get("alias") else "",
            " ptr=%s" % self.shape["ptr"] if self.shape.get("ptr") is not None else "", self.live)

    # -- pairs of handles at exit
    def pair(self, st, rid, off):
        r = st.mem[rid]
        lay = self.H.lay
        cb = self.eng.read_cell(st, r, off + lay.h_cb, 8)
        p = self.eng.read_cell(st, r, off + lay.h_ptr, 8)
        return st.const(cb), st.const(p)

    def exits(self, exits):
        op = self.op
        for x in exits:
            if x.kind == "stop":
                self.stopped(x)
                continue
            if x.kind == "terminate":
                self.f(("C12",), "terminates (%s)" % x.why, last_where(x.state), x.state)
                continue
            if x.kind == "unwind":
                if op.noexcept:
                    self.f(("C12",), "an exception (%s) leaves the operation" % x.value, last_where(x.state), x.state)
                self.common(x.state, unwinding=True)
                continue
            self.returned(x)
            self.common(x.state)
        if not exits:
            self.f((op.content, "C12", "C33"), "never returns", None, None)
        elif not any(x.kind in ("ret", "unwind") for x in exits) and not self.out:
            raise AnalysisError("%s never returns" % op.name)

    def stopped(self, x):
        for e in x.state.trace:
            if e[0] == "fault":
                kind, msg, tag = e[1], e[2], e[3]
                props = {self.op.content}
                if tag == "cb":
                    props |= {"C04"}
                elif tag == "obj":
                    props |= {"C28", "C03"}
                if kind == "freed" and tag not in ("cb", "obj"):
                    props |= {"C04"}
                if self.op.promote or self.op.group == "shared_from":
                    props |= {"C05"} if tag == "cb" else set()
                if kind in ("null", "undef"):
                    props |= {"C13"}
                self.f(sorted(props), "%s: %s" % (kind, msg), e[-1], x.state)
        if x.why == "unreachable":
            self.f((self.op.content,), "reaches code marked unreachable", last_where(x.state), x.state)

    def in_sections(self, x):
        """Another thread stored something else between the critical sections of the operation: one of them
        has to explain everything it did, and the others have to leave the stored pointer alone."""
        op, st, c = self.op, x.state, self.c
        self.ob("C23", "C24")
        secs = [e for e in st.trace if e[0] == "section"]
        pre = c.S["s"]
        best = None
        saved, self.out, S0 = self.out, [], c.S
        for j, e in enumerate(secs):
            post, then = e[1], e[2]
            rest = all(b[1] == a for k, (a, b) in enumerate(zip([S0["s"]] + [q[2] for q in secs], secs)) if k != j)
            self.out = []
            c.S = copy.copy(S0)
            c.S["s"] = pre
            self.spec(x, {"s": post})
            if not rest:
                self.f(("C23", "C24"), "writes the stored pointer in several critical sections", last_where(st), st)
            if best is None or len(self.out) < len(best):
                best = self.out
            pre = then
        c.S = S0
        self.out = saved
        for b in best or ():
            b.props = tuple(sorted({"C23", "C24"}))
            b.msg = "does not take effect in one critical section: another thread may store between two: " + b.msg
            self.out.append(b)

    # -- what must hold at a normal return
    def returned(self, x):
        if self.eng.mon.sections is not None and any(e[0] == "section" for e in x.state.trace):
            self.in_sections(x)
        else:
            self.spec(x, {})

    def spec(self, x, instead):
        op, st, c, S_ = self.op, x.state, self.c, self.c.S
        exp = dict(op.post(S_))
        done = set()
        self.final = {}
        for v, (rid, off, k, t) in c.handles.items():
            if v in op.dies:
                continue
            if (rid, off) in done and v not in exp:
                continue
            done.add((rid, off))
            got = self.pair(st, rid, off)
            self.final[(rid, off)] = (got, k, v)
            self.match(st, v, instead.get(v, got), exp.get(v, S_[v]), k)
        for v, (k, t) in op.makes.items():
            rid = c.addr[v]
            off = 0 if k != "ST" else self.H.lay.storage[t][0]
            got = self.pair(st, rid, off)
            self.final[(rid, off)] = (got, k, v)
            if op.promote and op.promote[0] == v:
                self.promoted(st, v, got)
            else:
                self.match(st, v, got, exp[v], k)
        if op.rets is not None:
            self.ret(st, x.value, op.rets(S_))

    def cprops(self):
        ps = {self.op.content}
        if self.op.group in ("strong", "weak"):
            ps |= {"C13"}
        if self.op.group == "cast":
            ps |= {"C14"}
        return tuple(sorted(ps))

    def match(self, st, v, got, want, k):
        self.ob(*self.cprops())
        if isinstance(want, tuple) and want and want[0] == "weakconv":
            _, cb, up = want
            srcv = [p[1] for p in self.op.params if p[0] == "WP"][-1]
            full = up(self.c.S, srcv)
            if got[0] != cb:
                self.f(self.cprops(), "%s has owner %s, expected %s" % (v, show(got[0]), show(cb)), last_where(st), st)
                return
            if cb == 0:
                return
            held = False
            if cb:
                i = self.cbidx(cb)
                held = self.c.n_s[i] > 0 or (self.H.fam != "A" and not self.c.dead[i]) or any(
                    e[0] == "cnt" and e[1] == i and e[2] == "s" and e[3] == 1 for e in st.trace)
            if got[1] != full[1] and not (got[1] == 0 and not held):
                self.f(self.cprops(), "%s designates %s, expected %s" % (v, show(got[1]), show(full[1])), last_where(st), st)
            return
        if isinstance(want, tuple) and want and want[0] == "dyn":
            _, pair, T = want
            want = (0, 0)
            if pair[0] and pair[1]:
                evs = [e for e in st.trace if e[0] == "dyncast" and e[1] == pair[1]]
                if not evs:
                    self.f(self.cprops(), "no dynamic cast of the object takes place", last_where(st), st)
                    return
                res = evs[-1][3]
                want = (pair[0], res) if res else (0, 0)
        if k == "WP" and want[0] == 0 and got[0] == 0:
            return  # a weak pointer without an owner designates nothing
        if got != want:
            what = []
            if got[0] != want[0]:
                what.append("owner is %s, expected %s" % (show(got[0]), show(want[0])))
            if got[1] != want[1]:
                what.append("object is %s, expected %s" % (show(got[1]), show(want[1])))
            self.f(self.cprops(), "%s: %s" % (v, "; ".join(what)), last_where(st), st)

    def cbidx(self, cb):
        for i, x in enumerate(self.c.info):
            if x[0] == cb:
                return i
        return None

    def promoted(self, st, v, got):
        self.ob(*(("C05", "C16") if self.op.content == "C16" else ("C05", "C13")))
        op, c = self.op, self.c
        src = op.promote[1]
        cb, ptr = c.S[src]
        if len(op.promote) > 2:
            ptr = c.S[op.promote[2]]
        props = ("C05", "C16") if op.content == "C16" else ("C05", "C13")
        if cb == 0:
            if got != (0, 0):
                self.f(props, "promotion without a control block is not empty: %s" % show(got), last_where(st), st)
            return
        i = self.cbidx(cb)
        if got == (0, 0):
            ok = False
            if self.H.fam == "A":
                seen = st.ghost.get(("seen", i, "s"))
                ok = c.n_s[i] == 0 and seen is not None and st.const(seen) == 0
            else:
                ok = c.e[i] == 0
            if not ok:
                self.f(props, "promotion fails although the count was not seen to be zero", last_where(st), st)
        else:
            if got != (cb, ptr):
                self.f(props + ("C13",), "promotion gives %s, expected %s" % (show(got), show((cb, ptr))), last_where(st), st)

    def ret(self, st, got, want):
        c = self.c
        got = st.const(got)
        props = tuple(sorted({self.op.content} | {p for q, ps in SEEN_BY.items() if self.op.name.startswith(q) for p in ps}))
        self.ob(*props)
        bad = None
        if isinstance(want, tuple) and want and want[0] in ("cmp", "cmpn"):
            t = self.eng.icmp(st, want[1], want[2], want[3])
            if want[0] == "cmpn":
                t = self.eng.neg(t)
            if got == U or not same_bool(self.eng, st, got, t):
                bad = "%s" % show(t)
        elif isinstance(want, tuple) and want and want[0] in ("count", "countzero"):
            cb = want[1]
            if cb == 0:
                n = 0
            else:
                i = self.cbidx(cb)
                if self.H.fam == "A":
                    n = st.ghost.get(("seen", i, "s"), "no read of the count")
                else:
                    n = 0 if c.e[i] == 0 else ("L", c.e[i][1], c.n_s[i], 32)
            n = st.const(n)
            if want[0] == "count":
                g = got
                if isinstance(g, tuple) and g[0] == "L" and isinstance(n, tuple) and n[0] == "L":
                    if (g[1], g[2] & 0xffffffff) != (n[1], n[2] & 0xffffffff):
                        bad = show(n)
                elif g != n:
                    bad = show(n)
            else:
                if isinstance(n, str):
                    bad = n
                else:
                    t = self.eng.icmp(st, "eq", n, 0)
                    if got == U or not same_bool(self.eng, st, got, t):
                        bad = show(t)
        else:
            if got == U:
                bad = show(want)
            elif isinstance(want, int) and isinstance(got, tuple) and got[0] in ("C", "N", "O"):
                if st.truth(got) is None or int(st.truth(got)) != want:
                    bad = show(want)
            elif got != want:
                bad = show(want)
        if bad is not None:
            self.f(props, "returns %s, expected %s" % (show(got), bad), last_where(st), st)

    # -- what must hold on every exit
    def common(self, st, unwinding=False):
        c, op, fam = self.c, self.op, self.H.fam
        tr = st.trace
        nblocks = len(c.info)
        died = [False] * nblocks
        freed = [False] * nblocks
        own_s = list(c.n_s)
        own_w = list(c.n_w)
        held = lambda i: own_w[i] + (1 if own_s[i] >= 1 else c.group[i]) + (1 if died[i] else 0)
        destroyed_at = [None] * nblocks
        any_destroy = None
        lock = LockTrack()
        const = {c.handles[v][0] for v in op.const} - {c.handles[v][0] for v in c.handles if v not in op.const}
        pending_acq = [None] * nblocks   # last strong release waiting for an acquire
        pending_acq_w = [None] * nblocks
        relfence = False                 # everything before was ordered by a release fence
        for n, e in enumerate(tr):
            k = e[0]
            w = e[-1]
            if k == "env":
                own_s[e[1]] += e[2]
            elif k == "cnt":
                _, i, role, d, old, how, order, _w = e
                self.ob(*(("C01", "C03") if role == "s" else ("C02", "C04")) + (("C06",) if fam == "A" else ()) + (("C07",) if fam == "A" and d < 0 else ()) + (("C05",) if role == "s" and d > 0 else ()))
                o = st.const(old)
                rng = st.rng(o)
                nm = "strong" if role == "s" else "weak"
                if lock.held and d < 0 and role == "s":
                    self.f("C25", "gives up a strong reference while holding the lock", w, st)
                if d == 1:
                    if role == "s" and op.group == "storage" and not lock.held and c.n_s[i] == 1 and c.S["s"][0] == c.info[i][0]:
                        self.f(("C23",), "takes a reference to the stored object without holding the lock", w, st)
                    if role == "s":
                        nz = rng is not None and rng[0] >= 1
                        if isinstance(o, tuple) and o[0] == "L":
                            nz = nz or st.eq(o, 0) is False
                        if not nz:
                            self.f(("C05", "C06") if fam == "A" else ("C05",), "increments a strong count which may be zero", w, st)
                        own_s[i] += 1
                    else:
                        if held(i) < 1:
                            self.f(("C02", "C04"), "takes a weak reference of a control block which is not held", w, st)
                        own_w[i] += 1
                elif d == -1:
                    if fam == "A" and order not in REL and not relfence:
                        self.f("C07", "a %s reference is given up with %s ordering, which does not release" % (nm, order), w, st)
                    if role == "s":
                        if own_s[i] < 1:
                            self.f(("C01", "C03"), "drops a strong reference which is not owned", w, st)
                        own_s[i] -= 1
                        if o == 1:
                            died[i] = True
                            pending_acq[i] = n if order not in ACQ else None
                        elif own_s[i] == 0 and (rng is None or rng[0] <= 1) and st.eq(o, 1) is None:
                            self.f(("C03",) + (("C06",) if fam == "A" else ()), "does not examine whether its own decrement made the strong count zero", w, st)
                    else:
                        if held(i) < 1:
                            self.f(("C02", "C04"), "drops a weak reference which is not held", w, st)
                        if died[i] and destroyed_at[i] is None and held(i) <= 1:
                            self.f(("C03", "C04"), "gives up the weak reference of the owners before the object is destroyed", w, st)
                        own_w[i] -= 1
                        if o == 1:
                            freed[i] = "due"
                            pending_acq_w[i] = n if order not in ACQ else None
                        elif held(i) == 0 and (rng is None or rng[0] <= 1) and st.eq(o, 1) is None:
                            self.f(("C04",) + (("C06",) if fam == "A" else ()), "does not examine whether its own decrement made the weak count zero", w, st)
                else:
                    self.f(("C01" if role == "s" else "C02", "C06"), "changes the %s count by %d in one step" % (nm, d), w, st)
                    if role == "s":
                        own_s[i] += d
                    else:
                        own_w[i] += d
            elif k == "badupd":
                ps = ["C01" if e[2] == "s" else "C02"]
                if fam == "A":
                    ps.append("C06")
                self.f(ps, "updates the %s count by %s" % ("strong" if e[2] == "s" else "weak", e[3]), w, st)
            elif k == "plainread":
                self.f(("C06",), "reads a shared count without an atomic operation", w, st)
            elif k == "aload" or k == "cas_fail":
                i, ro, order = e[1], e[2], e[3]
                if isinstance(i, int) and ro in ("s", "w") and order in ACQ:
                    (pending_acq if ro == "s" else pending_acq_w)[i] = None if i < nblocks else None
            elif k == "fence":
                relfence = relfence or e[1] in REL
                lock.feed(st, e)
                if e[1] in ACQ:
                    pending_acq = [None] * nblocks
                    pending_acq_w = [None] * nblocks
            elif k in ("dtor", "del"):
                p = e[1]
                relfence = False
                if lock.held:
                    self.f("C25", "runs a destructor while holding the lock", w, st)
                i = self.objof(st, p)
                if i is None:
                    self.f(("C03", "C17"), "destroys %s, which is not the object of a control block being released" % show(p), w, st)
                    continue
                if any_destroy is None:
                    any_destroy = n
                full, ct = c.info[i][3], c.info[i][2]
                if p == full and (e[2] == ct or k == "del"):
                    self.ob("C03", "C17", *(("C07",) if fam == "A" else ()))
                    if destroyed_at[i] is not None or c.dead[i] if fam != "A" else destroyed_at[i] is not None:
                        self.f(("C03", "C17"), "destroys the object twice", w, st)
                    destroyed_at[i] = n
                    if not died[i]:
                        self.f(("C03",) + (("C06",) if fam == "A" else ()), "destroys the object although its own decrement did not make the strong count zero", w, st)
                    if fam == "A" and pending_acq[i] is not None:
                        self.f("C07", "destroys the object without having acquired what the other owners did before they released it", w, st)
                elif not died[i]:
                    self.f(("C03", "C17"), "destroys a part of the object", w, st)
            elif k == "free":
                rid = e[1]
                r = st.mem[rid]
                if "cb" in r.meta:
                    i = r.meta["cb"]
                    self.ob("C04", *(("C07",) if fam == "A" else ()))
                    if freed[i] != "due":
                        self.f(("C04",), "frees the control block although its own decrement did not make the weak count zero", w, st)
                    if fam == "A" and pending_acq_w[i] is not None:
                        self.f("C07", "frees the control block without having acquired what other holders did before they released it", w, st)
                    if destroyed_at[i] is None and not (fam != "A" and c.dead[i]) and not (fam == "A" and c.n_s[i] == 0):
                        self.f(("C03", "C04"), "frees the control block before the object is destroyed", w, st)
                    if own_s[i] > 0 or own_w[i] + (1 if died[i] else 0) > 0:
                        self.f(("C04",), "frees the control block while it is still designated", w, st)
                    freed[i] = True
                elif r.meta.get("objof") is not None:
                    i = r.meta["objof"]
                    if not died[i]:
                        self.f(("C03", "C17"), "frees the object although its strong count is not zero", w, st)
                elif r.meta.get("objrange") or r.meta.get("root"):
                    self.f(("C04",), "frees memory it does not own", w, st)
            elif k == "alloc":
                if op.noexcept:
                    self.f("C12", "allocates", w, st)
            elif k == "throw":
                if op.noexcept:
                    self.f("C12", "may throw", w, st)
            elif k == "oacc":
                _, i, off, rw, own, dying = e[:6]
                if rw == "w" and op.group == "shared_from" and not dying:
                    self.f("C37", "writes to the object, which it only reads from", w, st)
                if not op.touches_obj and not dying:
                    virt = op.name.find("VD") >= 0 or op.name.endswith(("_V",)) or op.group == "cast"
                    if own < 1:
                        self.f("C28", "%s the managed object without owning it" % ("reads" if rw == "r" else "writes"), w, st)
                    elif rw == "w" or not virt:
                        self.f("C28", "%s the managed object" % ("reads" if rw == "r" else "writes"), w, st)
            elif k == "badreg":
                if fam == "T":
                    self.f("C09", "the control block is told of a reference which is %s (%s)" % (e[2], self.who(st, e[3])), w, st)
            elif k == "oper":
                rid, off, size, rw, order = e[1:6]
                r = st.mem[rid]
                sto = r.meta.get("storage")
                if any_destroy is not None and op.release_last and not r.meta.get("raw"):
                    self.f("C10", "accesses %s after the old object was destroyed" % r.name, w, st)
                if op.pure and rw == "w":
                    self.f("C30", "a query writes to %s" % r.name, w, st)
                if rw == "w" and rid in const:
                    self.f("C37", "writes to %s, which it only reads from" % r.name, w, st)
                if sto and op.group == "storage":
                    self.ob("C23")
                    if op.group == "storage":
                        for msg in lock.access():
                            self.f(("C23", "C26"), msg, w, st)
                    if not lock.held:
                        self.f("C23", "%s the stored pointer without holding the lock" % ("reads" if rw == "r" else "writes"), w, st)
            elif k in ("lockrmw", "lockstore", "lockload") and op.group != "storage_life":
                if op.pure and k != "lockload":
                    self.f("C30", "a query writes a lock", w, st)
                for msg in lock.feed(st, e):
                    self.f(("C23", "C26", "C38") if msg == TWICE else ("C23", "C26"), msg, w, st)
            elif k == "gacc":
                self.f(("C36", op.content) if e[2] == "w" else ("C36",), "%s the variable %s, which is no part of its operands" % ("writes" if e[2] == "w" else "reads", e[1]), w, st)
            elif k == "atomicop":
                if op.group not in ("storage", "storage_life"):
                    self.f("C41", "an operation on pointers for a single thread executes an atomic %s" % e[1], w, st)
            if lock.held and k in ("alloc", "throw", "cxa_throw", "ctor", "copy", "move", "args", "wait", "gacc"):
                self.f("C38", "%s while holding the lock" % {"alloc": "allocates", "throw": "may throw", "cxa_throw": "throws", "wait": "waits", "gacc": "uses a variable of the program"}.get(k, "runs a constructor"), w, st)
            if op.pure and k in ("cnt", "alloc", "reg", "tr", "dtor", "del", "free"):
                self.f("C30", "a query has an effect (%s)" % k, w, st)
        # ---- at the exit
        lw = last_where(st)
        self.ob("C28", "C36", *(("C41",) if fam == "L" and op.group not in ("storage", "storage_life") else ()), *(("C38",) if op.group == "storage" else ()),
                *(("C37",) if op.const or op.group == "shared_from" else ()))
        if op.noexcept:
            self.ob("C12")
        if op.pure:
            self.ob("C30")
        if op.release_last and any_destroy is not None:
            self.ob("C10")
        if lock.held:
            self.f(("C23", "C33"), "returns with the lock held", lw, st)
        if op.group == "storage":
            self.ob("C23", "C25", "C26")
        if unwinding:
            return
        n_s = [0] * nblocks
        n_w = [0] * nblocks
        reg = [set() for _ in range(nblocks)]
        newcb = {}
        for (rid, off), (pair, k, v) in self.final.items():
            cb = pair[0]
            if cb == 0 or cb == U:
                continue
            i = self.cbidx(cb)
            if i is None:
                continue
            if k == "WP":
                n_w[i] += 1
                reg[i].add(("w", P(rid, off)))
            else:
                n_s[i] += 1
                reg[i].add(("s", P(rid, off)))
        for i in range(nblocks):
            self.ob("C01", "C02")
            if own_s[i] != n_s[i]:
                d = own_s[i] - n_s[i]
                self.f(("C01", "C03") + (("C04",) if d < 0 else ()),
                       "%d strong reference(s) %s: %d shared pointer(s) designate the control block, %d counted" %
                       (abs(d), "lost" if d > 0 else "missing", n_s[i], own_s[i]), lw, st)
            want = n_w[i] - (1 if died[i] else 0)
            if own_w[i] != want:
                d = own_w[i] - want
                self.f(("C02", "C04"), "%d weak reference(s) %s: %d weak pointer(s)%s designate the control block, %d counted" %
                       (abs(d), "lost" if d > 0 else "missing", n_w[i], " (and the owners gave theirs up)" if died[i] else "", own_w[i] + (1 if died[i] else 0)), lw, st)
            if died[i] and destroyed_at[i] is None:
                self.f(("C03", "C17"), "the last strong reference is gone but the object is not destroyed", lw, st)
            if freed[i] == "due":
                self.f(("C04",), "the last weak reference is gone but the control block is not freed", lw, st)
            if fam == "T":
                self.ob("C09")
                cb = c.info[i][0]
                got = st.ghost.get(("reg", cb), frozenset())
                if set(got) != reg[i]:
                    extra = set(got) - reg[i]
                    miss = reg[i] - set(got)
                    self.f("C09", "announced pointers differ from the live ones:%s%s" % (
                        " left announced: %s" % ", ".join(self.who(st, x) for x in sorted(extra, key=str)) if extra else "",
                        " not announced: %s" % ", ".join(self.who(st, x) for x in sorted(miss, key=str)) if miss else ""), lw, st)

    def who(self, st, e):
        p = e[1]
        if is_ptr(p) and p[1] in st.mem:
            return "%s %s" % ("strong" if e[0] == "s" else "weak", st.mem[p[1]].name)
        return show(e)

    def objof(self, st, p):
        if not is_ptr(p) or p[1] not in st.mem:
            return None
        for lo, hi, i in st.mem[p[1]].meta.get("objrange", ()):
            if lo <= p[2] < hi:
                return i
        return None


def last_where(st):
    for e in reversed(st.trace):
        if isinstance(e[-1], tuple) and e[-1]:
            return e[-1]
    return (st.entry or ("?", "?", 0),)


OF_GROUP = {"strong": ("C01", "C13"), "weak": ("C02", "C13"), "alias": ("C14",), "cast": ("C14",), "shared_from": ("C16",), "storage": ("C23", "C24"),
            "storage_life": ("C24",), "query": ("C15",)}


ALONE = 4   # so many steps of an operation on shared memory happen with interference, then none


def stuck(op, fam, exits, desc):
    out = []
    for x in exits:
        if x.kind == "stop" and x.why == "stuck":
            out.append(Finding(("C33",), "does not finish although no other thread interferes any more", where(x.state), op.name, desc, x.state.trace))
    return out


def analyse_op(H, op, tier="quick", alone=False):
    """All shapes of one op. Returns (findings, obligations, cases)."""
    findings, obl, cases = [], collections.Counter(), 0
    bad = build.dropped(H.m, op.name)
    if bad:
        ps = OF_GROUP[op.group] + (op.content,)
        obl.update(ps)
        if not op.name.startswith("wp_pair"):
            findings.append(Finding(ps, "a legal use no longer compiles: " + bad[1], bad[0], op.name, op.code, ()))
        return findings, obl, 1
    for shape in shapes(op, H.fam):
        weak_only = {}
        hs = [(k, v) for k, v, t in op.params if k in ("SP", "WP", "ST")]
        blocks = set(c[0] for v, c in shape["h"].items() if c[0].isdigit() and c[0] != "0")
        strong_blocks = set(shape["h"][v][0] for k, v in hs if k != "WP" and shape["h"][v][0].isdigit())
        lives = ["any"] if H.fam == "A" else (["alive", "dead"] if blocks - strong_blocks else ["alive", "dying"] if shape.get("obj") == "owned" else ["alive"])
        variants = [0, 1] if blocks or shape.get("obj") == "owned" else [0]
        for live in lives:
            for var in variants:
                c = setup(H, op, shape, live, var)
                if op.shapes and not op.shapes(c.S):
                    continue
                entry = c.st.clone()
                mon = HMon(H.fam, H.lay.roles, throws=True)
                mon.lay = H.lay
                eng = H.engine(mon)
                exits = eng.run(op.name, c.args, c.st)
                H.done(eng)
                ev = Eval(H, op, shape, live, c, eng)
                ev.exits(exits)
                findings += ev.out
                obl += ev.obl
                cases += 1
                if alone:
                    obl["C33"] += 1
                for n in range(ALONE if alone and eng.seen else 0):
                    # it has loops: it must finish whenever the others stop
                    mon = HMon(H.fam, H.lay.roles, throws=False)
                    mon.lay = H.lay
                    mon.solo = n
                    e2 = H.engine(mon)
                    exits2 = e2.run(op.name, c.args, entry.clone())
                    H.done(e2)
                    findings += stuck(op, H.fam, exits2, ev.desc())
                    obl["C33"] += len(exits2)
                    cases += 1
                if op.group == "storage" and H.fam == "A" and not ev.out and any(
                        sum(1 for e in x.state.trace if e[0] == "section") > 1 for x in exits):
                    # again, with another thread which stores between two critical sections
                    mon = HMon(H.fam, H.lay.roles, throws=True)
                    mon.lay = H.lay
                    mon.sections = (next((c.S[v] for k, v in hs if k == "SP" and c.S[v][0]), (0, 0)), [i[0] for i in c.info])
                    eng = H.engine(mon)
                    exits = eng.run(op.name, c.args, entry)
                    H.done(eng)
                    ev = Eval(H, op, shape, live, c, eng)
                    ev.exits(exits)
                    findings += ev.out
                    obl += ev.obl
                    cases += 1
    return findings, obl, cases
