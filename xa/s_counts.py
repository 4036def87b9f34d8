"""Suites on the reference counters themselves and on the spinlock."""
from . import build
from .engine import Engine, Monitor, State, P, U
from .handles import Finding, last_where, show, LockTrack, ACQ, REL, one_word
from .ir import AnalysisError
from .runner import suite, funcs

RC_SRC = '''
#include "prelude.hpp"
#include <xmem/local_ref_count.hpp>
#include <xmem/atomic_ref_count.hpp>
''' + "".join('''W void ctor_{n}(void* p) {{ ::new(p) {t}(); }}
W unsigned long size_{n}() {{ return sizeof({t}); }}
W auto inc_{n}({t}& r) {{ return r.inc(); }}
W auto dec_{n}({t}& r) {{ return r.dec(); }}
W auto count_{n}({t}& r) {{ return static_cast<const {t}&>(r).count(); }}
W auto inc_nz_{n}({t}& r) {{ return r.inc_nz(); }}
W unsigned long width_inc_{n}() {{ return sizeof(decltype(std::declval<{t}&>().inc())); }}
W unsigned long width_dec_{n}() {{ return sizeof(decltype(std::declval<{t}&>().dec())); }}
W unsigned long width_count_{n}() {{ return sizeof(decltype(std::declval<{t}&>().count())); }}
W unsigned long width_inc_nz_{n}() {{ return sizeof(decltype(std::declval<{t}&>().inc_nz())); }}
'''.format(n=n, t=t) for n, t in (("L", "xmem::local_ref_count"), ("A", "xmem::atomic_ref_count")))

WHAT = {"inc": "increment", "dec": "decrement", "count": "read", "inc_nz": "conditional increment"}


class RCMon(Monitor):
    """The counter is one cell; for the atomic counter other threads may change it between any two accesses."""

    def __init__(self, cell, bits, atomic):
        self.cell, self.bits, self.atomic = cell, bits, atomic

    def mine(self, r, off):
        return self.cell is not None and r.rid == self.cell[0] and off == self.cell[1]

    def delta(self, st, old, new):
        old, new = st.const(old), st.const(new)
        m = 1 << self.bits
        if isinstance(old, int) and isinstance(new, int):
            d = (new - old) % m
        elif isinstance(old, tuple) and isinstance(new, tuple) and old[0] == new[0] == "L" and old[1] == new[1]:
            d = (new[2] - old[2]) % m
        else:
            return None
        return d - m if d > m // 2 else d

    def fresh(self, st):
        return st.sym(self.bits)

    def on_load(self, eng, st, r, off, size, order):
        if self.mine(r, off):
            v = self.fresh(st) if self.atomic else eng.read_cell(st, r, off, size)
            st.ev("load", v, order)
            return v

    def on_store(self, eng, st, r, off, size, v, order):
        if self.mine(r, off):
            st.ev("upd", eng.read_cell(st, r, off, size) if not self.atomic else None, v, "store", order)
        return False

    def on_rmw(self, eng, st, r, off, size, op, v, order):
        if self.mine(r, off) and self.atomic:
            old = self.fresh(st)
            st.ev("upd", old, eng.rmw_new(st, op, old, v, self.bits), "rmw", order)
            return old

    def on_cmpxchg(self, eng, st, r, off, size, cmp, new, so, fo, weak):
        if self.mine(r, off) and self.atomic:
            b = st.clone()
            st.ev("upd", cmp, new, "rmw", so)
            out = [(st, cmp, 1)]
            old = self.fresh(b)
            t = eng.icmp(b, "eq", old, cmp)
            if weak or (b.assume(t, False) if not isinstance(t, int) else not t):
                b.ev("load", old, fo)
                out.append((b, old, 0))
            return out

    def fault(self, st, e):
        st.ev("fault", e.kind, e.msg)


@suite("counters")
class Counters:
    def __init__(self, prop, tier, pre, config="17"):
        self.m = build.module("rc", RC_SRC, (), config)
        self.config = config

    def items(self):
        return [(n, op) for n in "LA" for op in ("init", "inc", "dec", "count", "inc_nz")]

    def cost(self, it):
        return 1

    def label(self, it):
        return "counter %s %s" % it

    def one(self, r, f, args, st, mon=None):
        e = Engine(self.m, mon or Monitor())
        ex = e.run(f, args, st)
        r.functions.update(funcs(e.functions))
        for k, v in e.stats.items():
            r.stats[k] += v
        return ex

    def ret(self, r, f, args=(), st=None, mon=None):
        ex = self.one(r, f, list(args), st or State(), mon)
        if len(ex) != 1 or ex[0].kind != "ret":
            raise AnalysisError("%s does not simply return" % f)
        return ex[0].value, ex[0].state

    def run(self, it, r):
        n, op = it
        tname = {"L": "local_ref_count", "A": "atomic_ref_count"}[n]
        size, _ = self.ret(r, "size_" + n)
        st = State()
        reg = st.new_region("counter", size, "operand", "undef", {"root": True})
        h = P(reg.rid)
        _, st = self.ret(r, "ctor_" + n, [h], st)
        st.trace = ()
        # the cell which count() reports
        cell = None
        for o, (sz, v) in st.mem[reg.rid].cells.items():
            s2 = st.clone()
            s2.w(reg.rid).cells[o] = (sz, 77)
            v2, _ = self.ret(r, "count_" + n, [h], s2)
            if v2 == 77:
                cell, bits = (reg.rid, o), sz * 8
        if cell is None:
            raise AnalysisError("cannot find the counter of " + tname)

        def f(props, msg, w, st):
            r.findings.append(Finding(props, "%s::%s: %s" % (tname, op, msg), w, tname, "any count value", st.trace if st else ()))
        r.cases += 1
        bad = build.dropped(self.m, "%s_%s" % (op, n))
        if bad:
            r.obl["C08"] += 1
            f(("C08",), "no longer compiles: " + bad[1], bad[0], None)
            return
        if op == "init":
            r.obl["C08"] += 2
            v, s2 = self.ret(r, "count_" + n, [h], st.clone())
            if v != 1:
                f(("C08",), "a new counter is %s, not 1" % show(v), last_where(s2), s2)
            if bits < 32:
                f(("C08",), "the counter has only %d bits" % bits, last_where(s2), s2)
            return
        r.obl["C08"] += 1
        wd, s2 = self.ret(r, "width_%s_%s" % (op, n))
        if wd * 8 < bits:
            f(("C08",), "the result has %d bits, the counter %d" % (wd * 8, bits), last_where(s2), s2)
            return
        atomic = n == "A"
        st.frames = []
        old = st.sym(bits, lo=1 if op == "dec" else 0)
        st.w(reg.rid).cells[cell[1]] = (bits // 8, old)
        mon = RCMon(cell, bits, atomic)
        if op == "dec" and atomic:
            mon.fresh = lambda s: s.sym(bits, lo=1)
        for x in self.one(r, "%s_%s" % (op, n), [h], st, mon):
            s = x.state
            w = last_where(s)
            r.cases += 1
            if x.kind != "ret":
                f(("C08",), "does not return normally (%s)" % x.kind, w, s)
                continue
            ups = [e for e in s.trace if e[0] == "upd"]
            loads = [e for e in s.trace if e[0] == "load"]
            r.obl["C08"] += 2
            r.obl["C06"] += 1
            got = s.const(x.value)

            def same(a, b):
                a, b = s.const(a), s.const(b)
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "L":
                    return a[1] == b[1] and (a[2] - b[2]) % (1 << bits) == 0
                return a != U and a == b
            if atomic:
                for e in loads + ups:
                    if e[3 if e[0] != "load" else 2] == "na" or (e[0] == "upd" and e[3] == "store"):
                        f(("C06",), "the shared count is %s" % ("written by a store, not a read-modify-write" if e[0] == "upd" else "read without an atomic operation"), e[-1], s)
            eff = [(e[1], e[2]) for e in ups]
            bad = [e for e in eff if mon.delta(s, *e) is None] if not atomic or all(e[3] == "rmw" for e in ups) else [1]
            if bad:
                f(("C08", "C06") if atomic else ("C08",), "the new count is not computed from the old one", ups[0][-1], s)
                continue
            d = [mon.delta(s, *e) for e in eff]
            nz = lambda v: s.eq(s.const(v), 0) is False if not isinstance(s.const(v), int) else s.const(v) != 0
            if not atomic:
                new = s.mem[reg.rid].cells[cell[1]][1]
                d = [mon.delta(s, old, new)]
                if d[0] is None:
                    f(("C08",), "the new count is not computed from the old one", w, s)
                    continue
                eff = [(old, new)]
                if d == [0]:
                    d = []
            if op == "count":
                if d or ups:
                    f(("C08", "C30"), "changes the count", w, s)
                want = old if not atomic else (loads[-1][1] if loads else None)
                if want is None or not same(got, want):
                    f(("C08",), "returns %s instead of the count" % show(got), w, s)
            elif op in ("inc", "dec"):
                k = 1 if op == "inc" else -1
                if d != [k]:
                    f(("C08", "C06") if atomic else ("C08",), "changes the count by %s instead of %+d in one step" % (d, k), w, s)
                elif not same(got, eff[0][1]):
                    f(("C08", "C06") if atomic else ("C08",), "returns %s instead of the result of its own update (%s)" % (show(got), show(eff[0][1])), w, s)
            else:
                if d == [1]:
                    if not nz(eff[0][0]):
                        f(("C08", "C05") + (("C06",) if atomic else ()), "may raise the count from zero", w, s)
                    if not same(got, eff[0][1]):
                        f(("C08",), "returns %s instead of the new count (%s)" % (show(got), show(eff[0][1])), w, s)
                elif d == []:
                    last = old if not atomic else (loads[-1][1] if loads else None)
                    if last is None or s.const(last) != 0:
                        f(("C08", "C05"), "does nothing although the count is not known to be zero", w, s)
                    elif got != 0:
                        f(("C08", "C05"), "returns %s when the count is zero" % show(got), w, s)
                else:
                    f(("C08",) + (("C06",) if atomic else ()), "changes the count by %s" % d, w, s)


SL_SRC = r'''
#include "prelude.hpp"
#include <xmem/bits/spinlock.hpp>
using SL = xmem::impl::spinlock;
W void sl_ctor(void* p) { ::new(p) SL(); }
W unsigned long sl_size() { return sizeof(SL); }
W void sl_lock(SL& s) { s.lock(); }
W void sl_unlock(SL& s) { s.unlock(); }
W void sl_guard(SL& s) { SL::lock_guard g(s); ev_mark(1); }
W void sl_guard_throw(SL& s) { SL::lock_guard g(s); ev_alloc(1, 1, 1, 1); }
'''


class SLMon(Monitor):
    def __init__(self, rid):
        self.rid = rid

    def on_load(self, eng, st, r, off, size, order):
        if r.rid == self.rid:
            one_word(self, off)
            st.ev("lockload", r.rid, order)
            return st.sym(size * 8, hi=1)

    def on_store(self, eng, st, r, off, size, v, order):
        if r.rid == self.rid:
            st.ev("lockstore", r.rid, v, order)
            return True
        return False

    def on_rmw(self, eng, st, r, off, size, op, v, order):
        if r.rid == self.rid:
            one_word(self, off, op == "add")
            old = st.sym(size * 8, hi=1)
            st.ev("lockrmw", r.rid, v if op == "xchg" else eng.rmw_new(st, op, old, v, size * 8), old, order)
            return old

    def on_cmpxchg(self, eng, st, r, off, size, cmp, new, so, fo, weak):
        if r.rid == self.rid:
            b = st.clone()
            st.ev("lockrmw", r.rid, new, cmp, so)
            old = b.sym(size * 8, hi=1)
            t = eng.icmp(b, "eq", old, cmp)
            out = [(st, cmp, 1)]
            if weak or (b.assume(t, False) if not isinstance(t, int) else not t):
                out.append((b, old, 0))
            return out

    def on_extern(self, eng, st, fn, av, nounwind):
        if fn.name == "ev_mark":
            st.ev("mark")
            return [(st, "ret", None)]
        if fn.name == "ev_alloc":
            st.ev("mark")
            b = st.clone()
            return [(st, "ret", P(st.new_region("x", None, "heap").rid)), (b, "throw", "user")]


@suite("spinlock")
class Spinlock:
    def __init__(self, prop, tier, pre, config="17"):
        self.config = config
        try:
            self.m = build.module("sl", SL_SRC, (), config)
        except AnalysisError:
            # not part of the interface: the operations of the storage are analysed with whatever lock they use
            self.m = None

    def items(self):
        return [f for f in ("sl_lock", "sl_unlock", "sl_guard", "sl_guard_throw") if self.m and f not in self.m.dropped and "sl_ctor" not in self.m.dropped]

    def cost(self, it):
        return 1

    def label(self, it):
        return it

    def run(self, it, r):
        e = Engine(self.m, Monitor())
        size = e.run("sl_size", [], State())[0].value
        st = State()
        reg = st.new_region("lock", size, "operand", "undef", {"root": True})
        ex = e.run("sl_ctor", [P(reg.rid)], st)
        if len(ex) != 1 or ex[0].kind != "ret":
            raise AnalysisError("lock constructor")
        st = ex[0].state
        r.obl["C26"] += 1

        def f(msg, w, s):
            r.findings.append(Finding(("C26", "C23") if msg != "never returns" else ("C26", "C33"), "%s: %s" % (it, msg), w, it, "any state of the lock", s.trace))
        vals = [v for o, (sz, v) in st.mem[reg.rid].cells.items()]
        if any(v != 0 for v in vals):
            f("a new lock is not free", last_where(st), st)
        st.trace = ()
        st.frames = []
        e = Engine(self.m, SLMon(reg.rid))
        if it != "sl_lock" and "sl_lock" not in self.m.dropped:
            Engine(self.m, e.mon).run("sl_lock", [P(reg.rid)], st.clone())  # which kind of lock it is
        ex = e.run(it, [P(reg.rid)], st)
        r.functions.update(funcs(e.functions))
        for k, v in e.stats.items():
            r.stats[k] += v
        n = 0
        for x in ex:
            s = x.state
            r.cases += 1
            r.obl["C26"] += 1
            w = last_where(s)
            if x.kind not in ("ret", "unwind") or (x.kind == "unwind" and it != "sl_guard_throw"):
                f("does not return normally (%s)" % x.kind, w, s)
                continue
            n += 1
            lock = LockTrack(it == "sl_unlock")
            marks = []
            for ev in s.trace:
                if ev[0] in ("lockrmw", "lockstore", "lockload", "fence"):
                    for msg in lock.feed(s, ev):
                        f(msg, ev[-1], s)
                elif ev[0] == "mark":
                    for msg in lock.access():
                        f(msg, ev[-1], s)
                    marks.append(lock.held)
            want = {"sl_lock": (1, 0, True), "sl_unlock": (0, 1, False)}.get(it, (1, 1, False))
            if it == "sl_lock":  # what follows is protected
                for msg in lock.access():
                    f(msg, w, s)
            if (lock.n, lock.un) != want[:2] or lock.held != want[2]:
                f("takes the lock %d times and frees it %d times, expected %d and %d" % (lock.n, lock.un, want[0], want[1]), w, s)
            if it.startswith("sl_guard") and marks != [True]:
                f("the guarded code runs without the lock", w, s)
        if not n and not r.findings:
            if ex:
                raise AnalysisError("%s never returns" % it)
            f("never returns", ((it, "", 0),), st)
