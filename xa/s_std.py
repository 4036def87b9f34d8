"""Suite: the helpers for the standard library's pointers.

The counting functions of std::_Sp_counted_base are the trusted interface: each call is one count effect.
Everything else (including the standard pointers' own code) is interpreted.
"""
import collections
import copy

from . import build
from .engine import Engine, State, P, U, Fault, is_ptr
from .handles import TWICE, ALONE, stuck, HMon, Finding, LockTrack, last_where, show, same_bool, ACQ, REL
from .ir import AnalysisError
from .runner import suite, funcs

CBN = "std::_Sp_counted_base<(__gnu_cxx::_Lock_policy)2>::"
ATOMIC = "std::atomic<std::shared_ptr<"
ORD = {0: "relaxed", 1: "consume", 2: "acquire", 3: "release", 4: "acq_rel", 5: "seq_cst"}

SRC = r'''
#include "prelude.hpp"
#include <xmem/std_helpers.hpp>
struct EFS : xstd::enable_shared_from {
    int x;
    EFS() { ev_ctor(this, "EFS"); }
    ~EFS() { ev_dtor(this, "EFS"); }
    using enable_shared_from::shared_from_this;
    using enable_shared_from::weak_from_this;
    using enable_shared_from::shared_from;
    using enable_shared_from::weak_from;
};
template <typename T> using S = std::shared_ptr<T>;
template <typename T> using K = std::weak_ptr<T>;
template <typename T> using Z = xstd::atomic_shared_ptr_storage<T>;
W void b_A(void* d) { ::new(d) S<A>(new A); }
W void b_void(void* d) { ::new(d) S<void>(S<A>(new A)); }
W void b_EFS(void* d) { ::new(d) S<EFS>(new EFS); }
W const void* get_A(S<A>& a) { return a.get(); }
W const void* get_void(S<void>& a) { return a.get(); }
W const void* get_EFS(S<EFS>& a) { return a.get(); }
W unsigned long sz_S() { return sizeof(S<A>); }
W unsigned long sz_Z() { return sizeof(Z<A>); }
W unsigned long sz_U() { return sizeof(std::unique_ptr<A>); }
W void bz_A(void* d, S<A>& a) { ::new(d) Z<A>(a); }
W void ez_A(void* d) { ::new(d) Z<A>(); }
'''

E = (0, 0)


class Op:
    def __init__(self, name, params, code, ret="void", makes=None, post=None, rets=None, content="C29", group="", pure=False, noexcept=True, shapes=None, throws=False, dies=()):
        self.name, self.params, self.code, self.ret, self.makes = name, params, code, ret, makes or {}
        self.post = post or (lambda S: {})
        self.rets, self.content, self.group, self.pure, self.noexcept, self.throws = rets, content, group, pure, noexcept, throws
        self.shapes = shapes
        self.dies = dies

    def source(self):
        ps = []
        for kind, v, t in self.params:
            ps.append({"raw": "void* %s" % v, "S": "S<%s>& %s" % (t, v), "K": "K<%s>& %s" % (t, v), "Z": "Z<%s>& %s" % (t, v),
                       "ptr": "%s* %s" % (t, v), "obj": "%s& %s" % (t, v), "ref": "%s& %s" % (t, v)}[kind])
        return "W %s %s(%s) { %s }\n" % (self.ret, self.name, ", ".join(ps), self.code)


def gen():
    L = []

    def op(*a, **k):
        L.append(Op(*a, **k))
    for U_, T in [("A", "int"), ("void", "A"), ("A", "void"), ("A", "A")]:
        op("al_%s_%s" % (U_, T), [("raw", "d", T), ("S", "a", U_), ("ptr", "p", T)], "::new(d) S<%s>(xstd::make_aliased(static_cast<const S<%s>&>(a), p));" % (T, U_),
           makes={"d": "S"}, post=lambda S: {"d": (S["a"][0], S["p"]) if S["a"][0] else E})
    for X, Y in ("SS", "SK", "KS", "KK"):
        for T1, T2 in [("A", "A"), ("A", "void"), ("void", "A")]:
            op("so_%s%s_%s_%s" % (X, Y, T1, T2), [(X, "a", T1), (Y, "b", T2)], "return xstd::same_owner(static_cast<const %s<%s>&>(a), static_cast<const %s<%s>&>(b));" % (X, T1, Y, T2), ret="bool",
               rets=lambda S: int(S["a"][0] == S["b"][0]), pure=True)
    for X in "SK":
        for T in ("A", "void"):
            op("no_%s_%s" % (X, T), [(X, "a", T)], "return xstd::no_owner(static_cast<const %s<%s>&>(a));" % (X, T), ret="bool", rets=lambda S: int(S["a"][0] == 0), pure=True)
    # making pointers
    for u in ("A", "Ntc", "Tdt", "Big", "Emp", "Fin", "Over"):
        for nm, cat, kind in (("lv", "a", "copy"), ("clv", "static_cast<const %s&>(a)" % u, "copy"), ("rv", "std::move(a)", "move")):
            c = "const " + u if nm == "clv" else u
            sfx = "" if u == "A" else "_" + u
            op("ms_" + nm + sfx, [("raw", "d", c), ("ref", "a", u)], "static_assert(std::is_same_v<decltype(xstd::make_shared_ptr(%s)), S<%s>>); ::new(d) S<%s>(xstd::make_shared_ptr(%s));" % (cat, c, c, cat),
               makes={"d": "new"}, noexcept=False, group="make", post=lambda S, kind=kind: kind)
            op("mu_" + nm + sfx, [("raw", "d", c), ("ref", "a", u)], "static_assert(std::is_same_v<decltype(xstd::make_unique_ptr(%s)), std::unique_ptr<%s>>); ::new(d) std::unique_ptr<%s>(xstd::make_unique_ptr(%s));" % (cat, c, c, cat),
               makes={"d": "unew"}, noexcept=False, group="make", post=lambda S, kind=kind: kind)
    # shared-from
    sf = dict(group="sf", noexcept=False)
    for c in ("", "const "):
        o = "static_cast<%sEFS&>(o)" % c
        op("sf_this" + c.strip(), [("raw", "d", c + "void"), ("obj", "o", "EFS")], "::new(d) S<%svoid>(%s.shared_from_this());" % (c, o), makes={"d": "S"}, post=lambda S: {"d": S["o"]}, **sf)
        op("wf_this" + c.strip(), [("raw", "d", c + "void"), ("obj", "o", "EFS")], "::new(d) K<%svoid>(%s.weak_from_this());" % (c, o), makes={"d": "K"}, post=lambda S: {"d": S["o"]}, **sf)
        op("sf_ptr" + c.strip(), [("raw", "d", "int"), ("obj", "o", "EFS"), ("ptr", "p", "int")], "::new(d) S<int>(%s.shared_from(p));" % o, makes={"d": "S"}, post=lambda S: {"d": (S["o"][0], S["p"])}, **sf)
        op("wf_ptr" + c.strip(), [("raw", "d", "int"), ("obj", "o", "EFS"), ("ptr", "p", "int")], "::new(d) K<int>(%s.weak_from(p));" % o, makes={"d": "K"}, post=lambda S: {"d": (S["o"][0], S["p"])}, **sf)
    # storage
    z = dict(group="storage", content="C24")
    op("z_load", [("raw", "d", "A"), ("Z", "s", "A")], "::new(d) S<A>(static_cast<const Z<A>&>(s).load());", makes={"d": "S"}, post=lambda S: {"d": S["s"]}, **z)
    op("z_store", [("Z", "s", "A"), ("S", "a", "A")], "s.store(a);", post=lambda S: {"s": S["a"]}, **z)
    op("z_store_mv", [("Z", "s", "A"), ("S", "a", "A")], "s.store(std::move(a));", post=lambda S: {"s": S["a"], "a": E}, **z)
    op("z_exchange", [("raw", "d", "A"), ("Z", "s", "A"), ("S", "a", "A")], "::new(d) S<A>(s.exchange(a));", makes={"d": "S"}, post=lambda S: {"d": S["s"], "s": S["a"]}, **z)
    op("z_exchange_mv", [("raw", "d", "A"), ("Z", "s", "A"), ("S", "a", "A")], "::new(d) S<A>(s.exchange(std::move(a)));", makes={"d": "S"}, post=lambda S: {"d": S["s"], "s": S["a"], "a": E}, **z)

    def eq(S):
        return S["s"] == S["e"] if S.both else S["s"][1] == S["e"][1]
    op("z_cas", [("Z", "s", "A"), ("S", "e", "A"), ("S", "a", "A")], "return s.compare_exchange(e, a);", ret="bool", rets=lambda S: int(eq(S)),
       post=lambda S: {"s": S["a"]} if eq(S) else {"e": S["s"]}, **z)
    op("z_cas_mv", [("Z", "s", "A"), ("S", "e", "A"), ("S", "a", "A")], "return s.compare_exchange(e, std::move(a));", ret="bool", rets=lambda S: int(eq(S)),
       post=lambda S: {"s": S["a"], "a": E} if eq(S) else {"e": S["s"], "a": E}, **z)
    op("z_ctor", [("raw", "d", "A")], "::new(d) Z<A>();", makes={"d": "Z"}, post=lambda S: {"d": E}, group="life", content="C24")
    op("z_ctor_ptr", [("raw", "d", "A"), ("S", "a", "A")], "::new(d) Z<A>(a);", makes={"d": "Z"}, post=lambda S: {"d": S["a"]}, group="life", content="C24")
    op("z_ctor_mv", [("raw", "d", "A"), ("S", "a", "A")], "::new(d) Z<A>(std::move(a));", makes={"d": "Z"}, post=lambda S: {"d": S["a"], "a": E}, group="life", content="C24")
    op("z_dtor", [("Z", "s", "A")], "s.~atomic_shared_ptr_storage();", dies=("s",), group="life", content="C24")
    return L


class SMon(HMon):
    def __init__(self, throws=True, atomics=False):
        HMon.__init__(self, "S", {}, throws)

    def on_call(self, eng, st, fn, av, nounwind):
        n = fn.dm
        if n.startswith(CBN):
            n = n[len(CBN):].split("(")[0]
            cb = av[0]
            if not is_ptr(cb):
                raise Fault("null" if cb == 0 else "wild", "counts through %s" % show(cb))
            if n == "_M_add_ref_copy":
                st.ev("cnt", cb, "s", 1)
            elif n == "_M_release":
                st.ev("cnt", cb, "s", -1)
            elif n == "_M_weak_add_ref":
                st.ev("cnt", cb, "w", 1)
            elif n == "_M_weak_release":
                st.ev("cnt", cb, "w", -1)
            elif n == "_M_add_ref_lock_nothrow":
                st.ev("cnt", cb, "s", 1)
                return [(st, "ret", 1)]
            elif n == "_M_add_ref_lock":
                st.ev("cnt", cb, "s", 1)
            elif n == "_M_get_use_count":
                v = st.sym(64, lo=1, hi=1 << 31)
                return [(st, "ret", v)]
            else:
                return None
            return [(st, "ret", None)]
        if n.startswith(ATOMIC):
            m = n[n.index("::", n.index(">")) + 2:].split("(")[0]
            if m in ("load", "store", "exchange", "compare_exchange_strong", "compare_exchange_weak"):
                out = self.atomic(eng, st, m, av, n)
                obj = av[1] if m in ("load", "exchange") else av[0]
                for s, _, _ in out:
                    if s.mem[obj[1]].meta.get("storage"):
                        self.between(eng, s, s.mem[obj[1]])
                return out
        return None

    def between(self, eng, st, r):
        """See HMon.between; the words of std::shared_ptr are object, owner."""
        lo = r.meta["storage"][0]
        x = tuple(st.const(v) for v in self.words(eng, st, P(r.rid, lo)))
        got = then = (x[1], x[0])
        if self.sections is not None and not st.ghost.get("between"):
            st.ghost["between"] = True
            then = (0, 0) if got[0] != 0 else self.sections
            for pair, d in ((got, -1), (then, 1)):
                if pair[0] != 0:
                    st.ev("env", pair[0], d)
            self.put(eng, st, P(r.rid, lo), (then[1], then[0]))
        st.ev("section", got, then)

    def words(self, eng, st, p):
        r = st.mem[p[1]]
        return eng.read_cell(st, r, p[2], 8), eng.read_cell(st, r, p[2] + 8, 8)

    def put(self, eng, st, p, w):
        for i in (0, 1):
            eng.write_cell(st, p[1], p[2] + 8 * i, 8, w[i])

    def atomic(self, eng, st, m, av, n):
        """The operations of std::atomic<std::shared_ptr>, which is trusted."""
        sret = n.startswith("@")
        a = list(av)
        if m in ("load", "exchange"):
            res, a = a[0], a[1:]
        obj = a[0]
        cur = self.words(eng, st, obj)
        orders = [ORD.get(st.const(x), "?") for x in a[1:] if isinstance(st.const(x), int)]
        st.ev("stdop", m, obj, tuple(orders))
        if m == "load":
            self.put(eng, st, res, cur)
            if cur[1] != 0:
                st.ev("cnt", cur[1], "s", 1)
            return [(st, "ret", None)]
        if m == "store":
            new = self.words(eng, st, a[1])
            self.put(eng, st, obj, new)
            self.put(eng, st, a[1], cur)
            return [(st, "ret", None)]
        if m == "exchange":
            new = self.words(eng, st, a[1])
            self.put(eng, st, obj, new)
            self.put(eng, st, a[1], (0, 0))
            self.put(eng, st, res, cur)
            return [(st, "ret", None)]
        exp = self.words(eng, st, a[1])
        new = self.words(eng, st, a[2])
        out = []
        if exp == cur:
            b = st.clone()
            self.put(eng, st, obj, new)
            self.put(eng, st, a[2], cur)
            out.append((st, "ret", 1))
            if m == "compare_exchange_strong":
                return out
            st = b
        if exp[1] != 0:
            st.ev("cnt", exp[1], "s", -1)
        if cur[1] != 0:
            st.ev("cnt", cur[1], "s", 1)
        self.put(eng, st, a[1], cur)
        out.append((st, "ret", 0))
        return out


class Spec(dict):
    both = False

    def __copy__(self):
        s = Spec(self)
        s.both = self.both
        return s


def sections(st):
    return [e for e in st.trace if e[0] == "section"]


@suite("std")
class Std:
    def __init__(self, prop, tier, pre, config="17", groups=None):
        self.ops = [o for o in gen() if groups is None or o.group in groups]
        self.config, self.prop = config, prop
        self.m = build.module("std", SRC + "".join(o.source() for o in gen()), [], config)
        self.native = any(f.dm.startswith(ATOMIC) for f in self.m.funcs.values())
        self.fs = {}
        self.stats = collections.Counter()
        self.base = {}

    def items(self):
        return self.ops

    def cost(self, o):
        return len(o.params)

    def label(self, o):
        return "std %s config=%s" % (o.name, self.config)

    def single(self, f, args, st):
        e = Engine(self.m, SMon(False))
        ex = e.run(f, args, st)
        self.fs.update(e.functions)
        self.stats.update(e.stats)
        if len(ex) != 1 or ex[0].kind != "ret":
            raise AnalysisError("%s has %d outcomes" % (f, len(ex)))
        return ex[0].value, ex[0].state

    def run(self, o, r):
        self.fs, self.stats = {}, collections.Counter()
        bad = build.dropped(self.m, o.name)
        if bad:
            r.obl[o.content] += 1
            r.findings.append(Finding((o.content,), "a legal use no longer compiles: " + bad[1], bad[0], o.name, o.name, ()))
            return
        hs = [(k, v, t) for k, v, t in o.params if k in "SKZ"]
        cands = [["E", "1m", "1n", "0a"] if n == 0 and k != "Z" else ["E", "1m", "2m"] if k == "Z" else ["E", "1m", "1a", "2m", "2s", "0a", "3m"] for n, (k, v, t) in enumerate(hs)]
        combos = [()]
        for c in cands:
            combos = [x + (y,) for x in combos for y in c]
        if len(hs) == 3:
            combos = [c for c in combos if c[2] in ("E", "1m", "2m", "3m")]
        if self.native:
            combos = [c for c in combos if not any(x in ("2s", "0a", "1a") for x in c) or o.group != "storage"]
        for c in combos:
            for p in ("x", "null", "self") if any(k == "ptr" for k, v, t in o.params) and hs else ("x",):
                self.case(o, r, dict(zip([v for _, v, _ in hs], c)), p)
        r.stats.update(self.stats)
        r.functions.update(funcs(self.fs))

    def case(self, o, r, shape, p):
        st = State()
        blocks = {}
        obj = [t for k, v, t in o.params if k == "obj"]
        n = max([int(x[0]) for x in shape.values() if x[0].isdigit()] + [1 if obj else 0])
        for i in range(1, n + 1):
            T = "EFS" if obj else "A"
            h = st.new_region("builder", 16, "operand", "undef", {"operand": "b"})
            _, st = self.single("b_" + T, [P(h.rid)], st)
            cells = st.mem[h.rid].cells
            g, _ = self.single("get_" + T, [P(h.rid)], st.clone())
            if g != cells[0][1]:
                raise AnalysisError("layout of std::shared_ptr")
            blocks[i] = (cells[8][1], cells[0][1])
            st.mem[cells[8][1][1]].meta = dict(st.mem[cells[8][1][1]].meta, root=True)
            st.mem[g[1]].meta = dict(st.mem[g[1]].meta, root=True)
            del st.mem[h.rid]
        st.trace, st.ghost = (), {}
        X = {}

        def alias(tag):
            if tag not in X:
                X[tag] = P(st.new_region("object " + tag, None, "obj", "sym", {"root": True}).rid)
            return X[tag]
        S_ = Spec()
        S_.both = self.native
        args, where_, own, ownw = [], {}, collections.Counter(), collections.Counter()
        stor = None
        src = None
        for k, v, t in o.params:
            if k in "SKZ":
                c = shape[v]
                pair = E if c == "E" else (0, alias("X")) if c == "0a" else blocks[int(c[0])]
                if c[1:] == "a" and c[0] != "0":
                    pair = (pair[0], alias("X"))
                elif c[1:] == "n":
                    pair = (pair[0], 0)
                elif c[1:] == "s":
                    pair = (pair[0], blocks[1][1])
                if k == "Z":
                    off, size, rest = self.zlayout(st)
                    reg = st.new_region(v, size, "operand", "undef", {"operand": v, "root": True, "storage": (off, off + 16)})
                    reg.cells.update(rest)
                    stor = pair[0]
                else:
                    off = 0
                    reg = st.new_region(v, 16, "operand", "undef", {"operand": v, "root": True})
                reg.cells[off] = (8, pair[1])
                reg.cells[off + 8] = (8, pair[0])
                where_[v] = (reg.rid, off, k)
                S_[v] = pair
                if pair[0] != 0:
                    (ownw if k == "K" else own)[pair[0]] += 1
                src = pair
                args.append(P(reg.rid))
            elif k == "raw":
                kind = o.makes[v]
                off = size = None
                if kind == "Z":
                    off, size, _ = self.zlayout(st)
                reg = st.new_region(v, {"S": 16, "K": 16, "new": 16, "unew": 8}.get(kind, size), "operand", "undef", {"operand": v, "root": True})
                where_[v] = (reg.rid, off or 0, kind)
                args.append(P(reg.rid))
            elif k == "ptr":
                val = alias("Y") if p == "x" else 0 if p == "null" else src[1]
                S_[v] = val
                args.append(val)
            elif k == "ref":
                reg = st.new_region(v, 4, "operand", "sym", {"operand": v, "root": True})
                S_[v] = P(reg.rid)
                args.append(P(reg.rid))
            elif k == "obj":
                S_[v] = blocks[1]
                args.append(blocks[1][1])
        eng = Engine(self.m, SMon(o.group == "make"))
        entry = st.clone()
        exits = eng.run(o.name, args, st)
        if self.prop == "C33":
            r.obl["C33"] += 1
            for n in range(ALONE if eng.seen else 0):
                mon = SMon(False)
                mon.solo = n
                e2 = Engine(self.m, mon)
                exits2 = e2.run(o.name, args, entry.clone())
                self.stats.update(e2.stats)
                r.findings += stuck(o, "std", exits2, "std %s operands=%s pointer=%s" % (o.name, shape, p))
                r.obl["C33"] += len(exits2)
                r.cases += 1
        self.judge(o, r, shape, p, exits, eng, S_, where_, own, ownw, stor)
        if o.group == "storage" and any(len(sections(x.state)) > 1 for x in exits):
            # again, with another thread which stores between two critical sections
            mon = SMon(False)
            mon.sections = next((S_[v] for k, v, t in o.params if k == "S" and S_[v][0] != 0), E)
            eng = Engine(self.m, mon)
            self.judge(o, r, shape, p, eng.run(o.name, args, entry.clone()), eng, S_, where_, own, ownw, stor)

    def judge(self, o, r, shape, p, exits, eng, S_, where_, own, ownw, stor):
        self.fs.update(eng.functions)
        self.stats.update(eng.stats)
        r.cases += 1
        done = 0
        for x in exits:
            s = x.state

            def f(props, msg, w=None):
                r.findings.append(Finding((props,) if isinstance(props, str) else tuple(props), msg, w or last_where(s), o.name, "std %s operands=%s pointer=%s" % (o.name, shape, p), s.trace))
            if x.kind == "stop":
                for e in s.trace:
                    if e[0] == "fault":
                        f((o.content,), "%s: %s" % (e[1], e[2]), e[-1])
                continue
            if x.kind == "terminate" or x.kind == "unwind":
                if o.noexcept or x.kind == "terminate" or x.value not in [e[1] for e in s.trace if e[0] == "throw"]:
                    f((o.content, "C12") if o.group != "sf" else (o.content,), "%s (%s)" % ("terminates" if x.kind == "terminate" else "throws", x.why or x.value))
                elif any(isinstance(k, int) and b.kind == "heap" and b.live and not b.meta.get("exception") for k, b in s.mem.items() if not b.meta.get("root")):
                    f((o.content, "C11"), "leaks memory when an exception is thrown")
                continue
            done += 1
            self.returned(o, r, f, x, s, S_, where_, own, ownw, stor, eng)
        if not done and not r.findings:
            if exits:
                raise AnalysisError("%s never returns" % o.name)
            r.findings.append(Finding((o.content, "C33"), "never returns", ((o.name, "", 0),), o.name, "std %s operands=%s pointer=%s" % (o.name, shape, p), ()))

    def zlayout(self, st0):
        if "z" not in self.base:
            size, _ = self.single("sz_Z", [], State())
            st = State()
            h = st.new_region("b", 16, "operand", "undef", {"operand": "b"})
            _, st = self.single("b_A", [P(h.rid)], st)
            c = st.mem[h.rid].cells
            d = st.new_region("z", size, "operand", "undef", {"operand": "z"})
            _, st = self.single("bz_A", [P(d.rid), P(h.rid)], st)
            cells = st.mem[d.rid].cells
            off = [q for q in cells if cells[q][1] == c[0][1] and cells.get(q + 8, (0, None))[1] == c[8][1]]
            if len(off) != 1:
                raise AnalysisError("cannot find the pointer in the storage for standard pointers")
            off = off[0]
            self.base["z"] = (off, size, {q: v for q, v in cells.items() if not off <= q < off + 16})
        return self.base["z"]

    def returned(self, o, r, f, x, st, S_, where_, own, ownw, stor, eng):
        r.obl[o.content] += 1
        if o.group == "storage":
            for p_ in ("C23", "C24", "C25", "C12"):
                r.obl[p_] += 1

        def words(v):
            rid, off, k = where_[v]
            reg = st.mem[rid]
            return (st.const(eng.read_cell(st, reg, off + 8, 8)), st.const(eng.read_cell(st, reg, off, 8)))
        if o.group == "make":
            kind = o.post(S_)
            ev = [e for e in st.trace if e[0] in ("ctor", "copy", "move", "args")]
            rid, off, k = where_["d"]
            g = st.const(eng.read_cell(st, st.mem[rid], 0, 8))
            if len(ev) != 1 or ev[0][0] != kind or st.const(ev[0][3][0]) != S_["a"]:
                f((o.content, "C22"), "the object is made by %s, expected one %s construction from the argument" % ([e[0] for e in ev], kind))
            elif g != ev[0][1]:
                f((o.content, "C22"), "the pointer designates %s, the object is at %s" % (show(g), show(ev[0][1])))
            if len([e for e in st.trace if e[0] == "alloc"]) != 1:
                f((o.content,), "allocates %d times" % len([e for e in st.trace if e[0] == "alloc"]))
            return
        fin, finw = collections.Counter(), collections.Counter()
        for v in where_:
            got = words(v)
            if v not in o.dies and got[0] != 0 and is_ptr(got[0]):
                (finw if where_[v][2] == "K" else fin)[got[0]] += 1

        def spec(f, S_, instead):
            exp = o.post(S_)
            for v in where_:
                if v in o.dies:
                    continue
                got = instead.get(v) or words(v)
                want = exp.get(v, S_.get(v))
                if where_[v][2] == "K" and want[0] == 0 and got[0] == 0:
                    continue
                if got != want:
                    f((o.content,), "%s has owner %s and object %s, expected %s and %s" % (v, show(got[0]), show(got[1]), show(want[0]), show(want[1])))
            if o.rets is not None:
                g, w = st.const(x.value), o.rets(S_)
                if isinstance(g, tuple) and st.truth(g) is not None:
                    g = int(st.truth(g))
                if g != w:
                    f((o.content,), "returns %s, expected %s" % (show(g), w))
        secs = sections(st)
        if eng.mon.sections is None or not secs:
            spec(f, S_, {})
        else:
            # one of them has to explain everything, the others leave the pointer alone (see handles.in_sections)
            best, pre = None, S_["s"]
            for j, e in enumerate(secs):
                msgs = []
                S1 = copy.copy(S_)
                S1["s"] = pre
                spec(lambda props, msg: msgs.append(msg), S1, {"s": e[1]})
                if not all(q[1] == a for k, (a, q) in enumerate(zip([S_["s"]] + [q[2] for q in secs], secs)) if k != j):
                    msgs.append("writes the stored pointer in several critical sections")
                if best is None or len(msgs) < len(best):
                    best = msgs
                pre = e[2]
            for m in best:
                f(("C23", "C24"), "does not take effect in one critical section: another thread may store between two: " + m)
        if o.pure:
            r.obl["C30"] += 1
        lock = LockTrack()
        r.obl["C36"] += 1
        if o.group == "storage":
            r.obl["C38"] += 1
        cs, cw = collections.Counter(own), collections.Counter(ownw)
        nops = 0
        for e in st.trace:
            w = e[-1]
            if lock.held and e[0] in ("alloc", "throw", "cxa_throw", "ctor", "copy", "move", "args", "wait"):
                f(("C38",), "%s while holding the lock" % {"alloc": "allocates", "throw": "may throw", "cxa_throw": "throws", "wait": "waits"}.get(e[0], "runs a constructor"), w)
            if e[0] == "gacc" and w and w[0][1] and w[0][1].startswith(build.INC + "/"):
                f(("C36",), "%s the variable %s, which is no part of its operands" % ("writes" if e[2] == "w" else "reads", e[1]), w)
            if e[0] == "env":
                cs[e[1]] += e[2]
            if e[0] == "cnt":
                _, cb, role, d = e[:4]
                (cs if role == "s" else cw)[cb] += d
                if o.pure:
                    f(("C30", o.content), "a query changes a count", w)
                if role == "s" and d < 0 and lock.held:
                    f(("C25",), "gives up a strong reference while holding the lock", w)
                if role == "s" and d > 0 and o.group == "storage" and not lock.held and cb == stor and own[cb] == 1 and not self.native:
                    f(("C23",), "takes a reference to the stored object without holding the lock", w)
            elif e[0] in ("lockrmw", "lockstore", "lockload", "fence"):
                if o.group == "storage":
                    for m in lock.feed(st, e):
                        f(("C23", "C26", "C38") if m == TWICE else ("C23", "C26"), m, w)
            elif e[0] in ("dtor", "del"):
                f((o.content,), "destroys an object by itself", w)
            elif e[0] in ("alloc", "free"):
                f((o.content, "C12"), "allocates or frees memory", w)
            elif e[0] == "oper" and o.group == "storage":
                if st.mem[e[1]].meta.get("storage"):
                    for m in lock.access():
                        f(("C23", "C26"), m, w)
                    if not lock.held:
                        f(("C23",), "%s the stored pointer without holding the lock" % ("reads" if e[4] == "r" else "writes"), w)
            elif e[0] == "oper" and o.pure and e[4] == "w":
                f(("C30", o.content), "a query writes to %s" % st.mem[e[1]].name, w)
            elif e[0] == "stdop":
                nops += 1
                m, orders = e[1], e[3]
                # load: acquire; store: release; exchange and compare-exchange (on success): both
                good = not orders or (orders[0] in ACQ or m == "store") and (orders[0] in REL or m == "load")
                if m.startswith("compare") and len(orders) > 1 and orders[1] not in ACQ:
                    good = False
                if not good:
                    f(("C23", "C24"), "%s with %s ordering" % (m, orders), w)
            elif e[0] == "oacc":
                f((o.content, "C28"), "accesses the object", w)
        if lock.held:
            f(("C23",), "returns with the lock held")
        if o.group == "storage" and not secs:
            f(("C23", "C24"), "has no critical section")
        for cb in set(cs) | set(fin):
            if cs[cb] != fin[cb]:
                f((o.content,), "%d strong reference(s) counted, %d shared pointer(s) left" % (cs[cb], fin[cb]))
        for cb in set(cw) | set(finw):
            if cw[cb] != finw[cb]:
                f((o.content,), "%d weak reference(s) counted, %d weak pointer(s) left" % (cw[cb], finw[cb]))
