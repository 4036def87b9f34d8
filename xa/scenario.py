"""Life-cycle analysis of scenarios: operations which create, hand over or destroy objects.

A scenario is a witness function with operands (pointer objects in caller memory, external objects, values).
The abstract interpreter follows all of its paths, including every allocation and constructor which may throw;
the rules below are evaluated on the effects of each path, and after the operands were destroyed.
"""
import collections

from .engine import State, P, U, is_ptr, Region, Fault
from .handles import HMon, Finding, Harness, last_where, show
from . import build
from .ir import AnalysisError

NEW_OF = {"_ZdlPv": "_Znwm", "_ZdlPvm": "_Znwm", "_ZdaPv": "_Znam", "_ZdaPvm": "_Znam",
          "_ZdlPvRKSt9nothrow_t": "_Znwm", "_ZdaPvRKSt9nothrow_t": "_Znam",
          "_ZdlPvSt11align_val_t": "_ZnwmSt11align_val_t", "_ZdlPvmSt11align_val_t": "_ZnwmSt11align_val_t",
          "_ZdaPvSt11align_val_t": "_ZnamSt11align_val_t", "_ZdaPvmSt11align_val_t": "_ZnamSt11align_val_t",
          "free": "malloc"}
ALIGN = {"Over": 64}
TRIV = ("Tdt", "Ntd", "EFN") # trivially destructible: end with their memory


class OMon(HMon):
    """Additionally: snapshots of the operands when an object is destroyed."""

    def __init__(self, fam, throws=True, snap=()):
        HMon.__init__(self, fam, {}, throws)
        self.spurious = False  # there are no other threads here
        self.snapvars = snap  # (name, rid, offset, size)

    def on_extern(self, eng, st, fn, av, nounwind):
        if fn.name in ("ev_del", "ev_dtor"):
            for name, rid, off, size in self.snapvars:
                r = st.mem.get(rid)
                if r is not None:
                    st.ev("snap", name, st.const(eng.read_cell(st, r, off, size)))
        return HMon.on_extern(self, eng, st, fn, av, nounwind)


class Scn:
    def __init__(self, name, params, main, fin="", finx=None, pre="", ret="void", check=None, props=(), ints=None,
                 handed=(), source=None, keeps=(), obj_props=("C03", "C17"), mem_props=("C04",), noexcept=False, pure=False,
                 ownfree=(), snap=(), old=False, tag="", allocs=None, key=None, touches=False, made=None, content=(), dels=None, setup=None, internal=False):
        self.name, self.params, self.main, self.fin, self.pre, self.ret = name, params, main, fin, pre, ret
        self.finx = fin if finx is None else finx
        self.check = check
        self.props = tuple(props)
        self.ints = ints or {}
        self.handed = handed          # [(param, deleter id, type)] each deleted exactly once in the whole scenario
        self.keeps = keeps            # operands unchanged when main unwinds
        self.obj_props, self.mem_props = obj_props, mem_props
        self.noexcept, self.pure = noexcept, pure
        self.snap = snap              # operands whose pointer is recorded at every destruction
        self.old = old                # main destroys what the operand held before
        self.allocs = allocs          # expected user allocator id, "default" or None
        self.key = key
        self.touches = touches
        self.content = content
        self.dels = dels
        self.internal = internal      # uses names which are not part of the interface
        self.setup = setup

    def source(self):
        ps = []
        for kind, var, t in self.params:
            if kind == "raw":
                ps.append("void* " + var)
            elif kind in ("ext", "ref"):
                ps.append("%s& %s" % (t, var))
            elif kind in ("new", "newarr", "null", "extp"):
                ps.append("%s* %s" % (t, var))
            elif kind == "int":
                ps.append("%s %s" % (t, var))
            else:
                raise AnalysisError(kind)
        ps = ", ".join(ps)
        s = "W %s %s(%s) { %s }\n" % (self.ret, self.name, ps, self.main)
        for suf, body in (("pre", self.pre), ("fin", self.fin), ("finx", self.finx)):
            if body:
                s += "W void %s__%s(%s) { %s }\n" % (self.name, suf, ps, body)
        return s


def mang(t):
    return "".join(c if c.isalnum() else "_" for c in t)


def type_helpers(scns, sp=True):
    """Size and accessor functions for the operand types."""
    s = "template <typename T> void kill(void* p) { static_cast<T*>(p)->~T(); }\n"
    return s


def helper_source(scns):
    s = ""
    raws, exts, news = set(), set(), set()
    for c in scns:
        for kind, var, t in c.params:
            if kind == "raw":
                raws.add(t)
            elif kind in ("ext", "ref", "extp"):
                exts.add(t)
            elif kind in ("new", "newarr"):
                news.add((kind, t))
    for t in sorted(raws | exts):
        s += "W unsigned long sz_%s() { return sizeof(%s); }\n" % (mang(t), t)
    for t in sorted(exts):
        if not t.startswith(("MDel", "IdDel", "const IdDel", "void", "EDel", "int", "Pod")):
            s += "W void mk_%s(void* p) { ::new(p) %s(); }\n" % (mang(t), t.replace("const ", ""))
    for t in sorted(raws):
        if t.startswith(("SP<", "WP<")):
            m = mang(t)
            if t.startswith("SP<"):
                s += "W const void* gt_%s(%s& h) { return h.get(); }\n" % (m, t)
            s += "W const void* ow_%s(%s& h) { return h.owner(); }\nW long uc_%s(%s& h) { return h.use_count(); }\n" % (m, t, m, t)
    for kind, t in sorted(news):
        if kind == "new":
            s += "W %s* nw_%s() { return new %s(); }\n" % (t, mang(t), t)
        else:
            s += "W %s* na_%s(unsigned long n) { return new %s[n](); }\n" % (t, mang(t), t)
    return s


class K:
    """One path through a scenario, with the helpers which the specifications use."""

    def __init__(self, suite, scn, env):
        self.suite, self.scn, self.env = suite, scn, env
        self.out = []
        self.obl = collections.Counter()
        self.case = ""

    def f(self, props, msg, where=None, st=None):
        if isinstance(props, str):
            props = (props,)
        st = st or self.st
        self.out.append(Finding(tuple(props), msg, where or last_where(st), self.scn.name, "%s %s" % (self.scn.name, self.case), st.trace,
                                self.scn.key if self.scn.key and msg.startswith("freed: ") else None))

    def ob(self, *props):
        for p in props:
            self.obl[p] += 1

    # -- helpers for the checks
    def q(self, fn, *args):
        """value of a query on the state after main"""
        s = self.st.clone()
        s.trace = ()
        v, s2 = self.suite.single(fn, list(args), s)
        return v, s2

    def addr(self, var):
        return self.env[var]

    def cells(self, var, st=None):
        r = (st or self.st).mem[self.env[var][1]]
        return dict(r.cells)

    def constructed(self, ty):
        """construction events of type ty during main"""
        return [e for e in self.main_tr if e[0] in ("ctor", "copy", "move", "args") and e[2] == ty]


class Life:
    """Typestate of every object and every block of memory along one path."""

    def __init__(self, k, seeds):
        self.k = k
        self.live = dict(seeds)
        self.stack = []

    def run(self, tr, st, props_obj, props_mem, phase):
        k = self.k
        for e in tr:
            n = e[0]
            w = e[-1]
            if n in ("ctor", "copy", "move", "args"):
                key = (e[1], e[2])
                k.ob(*props_obj)
                if key in self.live:
                    k.f(props_obj + ("C22",), "constructs %s twice in the same place" % e[2], w, st)
                self.live[key] = w
                if is_ptr(e[1]):
                    r = st.mem.get(e[1][1])
                    if r is not None and e[2] in ALIGN:
                        k.ob("C21")
                        al = r.meta.get("align") or r.meta.get("al") or 1
                        if not isinstance(al, int) or al % ALIGN[e[2]] or e[1][2] % ALIGN[e[2]]:
                            k.f(("C21",), "constructs %s in memory aligned to %s" % (e[2], al), w, st)
            elif n == "ctorfail":
                pass
            elif n == "dtor":
                key = (e[1], e[2])
                if key not in self.live:
                    k.f(props_obj, "destroys %s %s, which is not alive" % (e[2], show(e[1])), w, st)
                else:
                    del self.live[key]
            elif n == "del":
                if e[1] == 0:
                    k.f(("C17", "C18"), "hands a null pointer to a deleter", w, st)
            elif n == "free":
                k.ob(*props_mem)
                for x in [x for x in self.live if is_ptr(x[0]) and x[0][1] == e[1] and x[1] in TRIV]:
                    del self.live[x]
                bad = [t for (p, t) in self.live if is_ptr(p) and p[1] == e[1]]
                if bad:
                    k.f(props_mem + props_obj, "frees memory in which %s is still alive" % bad[0], w, st)
                    for x in [x for x in self.live if is_ptr(x[0]) and x[0][1] == e[1]]:
                        del self.live[x]
                r = st.mem.get(e[1])
                if r is not None:
                    self.match(e, r, st, w)
            elif n == "mismatch":
                k.f(("C21",), e[1], w, st)

    def match(self, e, r, st, w):
        k = self.k
        k.ob("C21")
        name, args = e[2], e[3]
        if name == "user":
            did, p, n, sz, al = args
            m = r.meta
            if r.kind != "uheap":
                k.f(("C21",), "returns memory to a user allocator which did not give it out", w, st)
            elif did != m["id"]:
                k.f(("C21",), "returns memory through another allocator (%s) than it came from (%s)" % (show(did), show(m["id"])), w, st)
            elif (n, sz, al) != (m["n"], m["esz"], m["al"]):
                k.f(("C21",), "returns %s x %s bytes aligned to %s, but %s x %s aligned to %s were allocated" % (n, sz, al, m["n"], m["esz"], m["al"]), w, st)
            elif p[2] != 0:
                k.f(("C21",), "returns another address than was allocated", w, st)
            return
        want = NEW_OF.get(name)
        got = r.meta.get("new")
        if want is None or got is None:
            k.f(("C21",), "memory of %s is freed by %s" % (got or r.kind, name), w, st)
            return
        if got.replace("RKSt9nothrow_t", "") != want:
            arr = got.startswith("_Zna") != want.startswith("_Zna")
            k.f(("C21", "C17", "C18") if arr else ("C21",), "memory from %s is freed by %s" % (FORM.get(got, got), FORM.get(name, name)), w, st)
            return
        vals = [st.const(x) for x in args[1:]]
        if "m" == name[6:7] and vals:
            if isinstance(r.size, int) and vals[0] != r.size:
                k.f(("C21",), "frees %s bytes, but %s were allocated" % (show(vals[0]), r.size), w, st)
        if "align_val_t" in name and vals and vals[-1] != r.meta.get("align"):
            k.f(("C21",), "frees memory aligned to %s as aligned to %s" % (r.meta.get("align"), show(vals[-1])), w, st)


FORM = {"_Znwm": "new", "_Znam": "new[]", "_ZdlPv": "delete", "_ZdaPv": "delete[]", "_ZdlPvm": "delete", "_ZdaPvm": "delete[]",
        "_ZnwmSt11align_val_t": "aligned new", "_ZdlPvSt11align_val_t": "aligned delete",
        "_ZnamSt11align_val_t": "aligned new[]", "_ZdaPvSt11align_val_t": "aligned delete[]"}


class Runner(Harness):
    """Runs scenarios of one module."""

    def __init__(self, module, fam):
        self.m = module
        self.fam = fam
        self.stats = {"runs": 0, "paths": 0, "instructions": 0, "forks": 0, "merged": 0}
        self.functions = {}
        self.sizes = {}
        self.hcb = 0
        if "derive_sp" in module.funcs:
            st = State()
            r = st.new_region("h", self.size("SP<A>"), "operand", "undef", {"operand": "h"})
            _, st = self.single("derive_sp", [P(r.rid)], st)
            own, _ = self.single("ow_SP_A_", [P(r.rid)], st)
            self.hcb = [o for o, c in st.mem[r.rid].cells.items() if c[1] == own][0]

    def single(self, fname, args, st, mon=None):
        return Harness.single(self, fname, args, st, mon or OMon(self.fam, throws=False))

    def size(self, t):
        if t not in self.sizes:
            self.sizes[t], _ = self.single("sz_" + mang(t), [], State())
        return self.sizes[t]

    def run(self, scn):
        """All paths of one scenario. Returns (findings, obligations, cases)."""
        for suf in ("", "__pre", "__fin", "__finx"):
            bad = build.dropped(self.m, scn.name + suf)
            if bad:
                obl = collections.Counter(scn.props)
                if scn.internal:
                    return [], obl, 0
                return [Finding(tuple(scn.props), "a legal use no longer compiles: " + bad[1], bad[0], scn.name, scn.main, ())], obl, 1
        st = State()
        env = {}
        args = []
        seeds = {}
        nobj = 0
        ext = set()
        for kind, var, t in scn.params:
            if kind == "raw":
                r = st.new_region(var, self.size(t), "operand", "undef", {"operand": var, "root": True, "align": 64})
                v = P(r.rid)
            elif kind in ("ext", "ref", "extp"):
                op = kind == "ref" and t.replace("const ", "").startswith(("MDel", "IdDel"))
                r = st.new_region(var, self.size(t), "obj" if not op else "operand", "undef", {"root": True, "align": 64})
                v = P(r.rid)
                if "mk_" + mang(t) in self.m.funcs:
                    st.trace = ()
                    _, st = self.single("mk_" + mang(t), [v], st)
                    for e in st.trace:
                        if e[0] == "ctor":
                            seeds[(e[1], e[2])] = None
                r = st.w(v[1])
                if not op and kind != "ref":
                    r.meta = dict(r.meta, objrange=((0, r.size, nobj),))
                nobj += 1
                ext.add(v[1])
                if op:
                    r.meta = dict(r.meta, operand=var)
                    r.cells[0] = (8, scn.ints[var])
            elif kind in ("new", "newarr"):
                st.trace = ()
                if kind == "new":
                    v, st = self.single("nw_" + mang(t), [], st)
                else:
                    v, st = self.single("na_" + mang(t), [scn.ints[var]], st)
                for e in st.trace:
                    if e[0] == "ctor":
                        seeds[(e[1], e[2])] = None
                rr = st.w(v[1])
                rr.meta = dict(rr.meta, objrange=((0, rr.size, nobj),), root=True)
                nobj += 1
            elif kind == "null":
                v = 0
            elif kind == "int":
                v = scn.ints[var]
                if v == "sym":
                    v = st.sym(64)
            env[var] = v
            args.append(v)
        st.trace = ()
        st.ghost = {}
        k0 = K(self, scn, env)
        if scn.setup:
            scn.setup(k0, st)
        pre_tr = ()
        if scn.pre:
            _, st = self.single(scn.name + "__pre", args, st, OMon(self.fam, throws=False))
            pre_tr = st.trace
            st.trace = ()
        snap = [("d", env["d"][1], self.hcb, 8)] if scn.old else []
        for v, off, size in scn.snap:
            if callable(off):
                off = off(k0, st)
            snap.append((v, env[v][1], off, size))
        entry = st.clone()
        mon = OMon(self.fam, throws=True, snap=snap)
        eng = self.engine(mon)
        exits = eng.run(scn.name, args, st)
        self.done(eng)
        out, obl, cases = [], collections.Counter(), 0
        done = 0
        for x in exits:
            k = K(self, scn, env)
            k.entry, k.eng, k.seeds, k.ext = entry, eng, seeds, ext
            k.st, k.kind, k.value = x.state, x.kind, x.value
            k.main_tr = x.state.trace
            k.pre_tr = pre_tr
            thrown = [e for e in k.main_tr if e[0] in ("throw", "cxa_throw", "ctorfail")]
            k.case = "family=%s %s" % (self.fam, "no exception" if not thrown else "exception from " + str(thrown[-1][1] if thrown[-1][0] != "ctorfail" else thrown[-1][2] + "'s constructor"))
            self.path(k, x, args)
            out += k.out
            obl += k.obl
            cases += 1
            done += x.kind in ("ret", "unwind")
        if not done and not out:
            raise AnalysisError("%s never returns" % scn.name)
        return out, obl, cases

    def path(self, k, x, args):
        scn, st = k.scn, x.state
        unw = x.kind == "unwind"
        pobj = scn.obj_props
        pmem = scn.mem_props
        if any(e[0] in ("throw", "cxa_throw") for e in k.main_tr):
            pobj = tuple(sorted(set(("C11",) + pobj)))
            pmem = tuple(sorted(set(("C11",) + pmem)))
        if x.kind == "stop":
            for e in st.trace:
                if e[0] == "fault":
                    ps = set(pobj) if e[3] != "cb" else set(pmem)
                    k.f(tuple(sorted(ps | set(pmem) | set(scn.props))), "%s: %s" % (e[1], e[2]), e[-1], st)
            if x.why == "unreachable":
                k.f(scn.props, "reaches code marked unreachable", None, st)
            return
        if x.kind == "terminate":
            ps = ("C12",) if scn.noexcept else ("C11", "C12")
            k.f(ps, "terminates (%s)" % x.why, None, st)
            return
        for p in scn.props:
            k.ob(p)
        k.ob("C36", *(("C41",) if self.fam == "L" else ()))
        if unw:
            k.ob("C11")
            if scn.noexcept:
                k.f(("C12",), "an exception (%s) leaves the operation" % x.value, None, st)
            thr = [e[1] for e in k.main_tr if e[0] in ("throw", "cxa_throw")]
            if x.value not in thr:
                k.f(("C11", "C12"), "throws %s of its own" % x.value, None, st)
            for v in scn.keeps:
                if k.cells(v) != dict(k.entry.mem[k.env[v][1]].cells):
                    k.f(("C11",), "%s is changed although the operation failed" % v, None, st)
        elif any(e[0] in ("throw", "cxa_throw") for e in k.main_tr):
            k.f(("C11",), "swallows an exception", None, st)
        if scn.noexcept:
            k.ob("C12")
            for e in k.main_tr:
                if e[0] == "alloc":
                    k.f("C12", "allocates", e[-1], st)
                if e[0] == "throw":
                    k.f("C12", "may throw", e[-1], st)
        if scn.pure:
            k.ob("C30")
            for e in k.main_tr:
                if e[0] in ("alloc", "free", "dtor", "del", "reg", "tr", "ctor", "copy", "move") or e[0] == "oper" and e[4] == "w":
                    k.f("C30", "a query has an effect (%s)" % e[0], e[-1], st)
        if not scn.touches:
            k.ob("C28")
            for e in k.main_tr:
                if e[0] == "oacc":
                    k.f("C28", "%s the managed object" % ("reads" if e[3] == "r" else "writes"), e[-1], st)
        for e in k.main_tr:
            if e[0] == "gacc":
                k.f(("C36",) + scn.props if e[2] == "w" else ("C36",), "%s the variable %s, which is no part of its operands" % ("writes" if e[2] == "w" else "reads", e[1]), e[-1], st)
            elif e[0] == "atomicop":
                k.f("C41", "an operation on pointers for a single thread executes an atomic %s" % e[1], e[-1], st)
        n = self.allocations(k) if not unw else None
        if n is not None:
            k.ob("C40")
            got = [e for e in k.main_tr if e[0] == "alloc"]
            if not n[0] <= len(got) <= n[1]:
                k.f("C40", "allocates %d times, expected %s" % (len(got), n[1]), got[-1][-1] if got else None, st)
        # life cycles
        life = Life(k, k.seeds)
        life.run(k.pre_tr, st, pobj, pmem, "pre")
        life.run(k.main_tr, st, pobj, pmem, "main")
        if self.fam == "T":
            self.registered(k, st, "after the operation" if not unw else "after the exception")
        if scn.check:
            n = len(k.out)
            scn.check(k)
        fn = scn.name + ("__finx" if unw else "__fin")
        if fn in self.m.funcs:
            s = st.clone()
            s.trace = ()
            s.exc = None
            s.caught = ()
            eng = self.engine(OMon(self.fam, throws=False))
            ex = eng.run(fn, args, s)
            self.done(eng)
            ok = True
            for y in ex:
                if y.kind == "stop":
                    for e in y.state.trace:
                        if e[0] == "fault":
                            k.f(tuple(sorted(set(pobj) | set(pmem) | set(scn.props))), "later destruction: %s: %s" % (e[1], e[2]), e[-1], y.state)
                    ok = False
                elif y.kind != "ret":
                    k.f(pobj + ("C12",), "later destruction: %s" % y.kind, None, y.state)
                    ok = False
            if not ok or len(ex) != 1:
                if ok:
                    raise AnalysisError("%s has %d outcomes" % (fn, len(ex)))
                return
            fst = ex[0].state
        else:
            fst = st.clone()
            fst.trace = ()
        k.fin_st = fst
        life.run(fst.trace, fst, pobj, pmem, "fin")
        if self.fam == "T":
            self.registered(k, fst, "after the destruction of all pointers", empty=True)
        # what is left
        for (p, t), w in life.live.items():
            if is_ptr(p) and p[1] in k.ext:
                continue
            k.f(pobj, "%s %s is never destroyed" % (t, show(p)), w, fst)
        for rid, r in fst.mem.items():
            if isinstance(rid, int) and r.kind in ("heap", "uheap") and r.live and not r.meta.get("exception"):
                k.f(pmem, "%s is never freed" % (r.name if r.kind == "heap" else "memory of the user allocator"), r.meta.get("site"), fst)
        for rid in k.ext:
            if not any(is_ptr(key[0]) and key[0][1] == rid for key in k.seeds):
                continue
            if [key for key in k.seeds if key[0][1] == rid] != [key for key in life.live if is_ptr(key[0]) and key[0][1] == rid]:
                k.f(pobj, "destroys the caller's object %s" % k.st.mem[rid].name, None, fst)
        # user deleters
        got = [(e[1], e[2], e[3]) for tr in (k.pre_tr, k.main_tr, fst.trace) for e in tr if e[0] == "del"]
        want = []
        for h in scn.handed:
            p, did, ty = h[:3]
            a = k.env[p]
            if len(h) > 3:
                a = h[3](k, a)
            if a != 0:
                want.append((a, did, ty))
        dp = tuple(sorted(set(pobj) | ({"C19"} if "C18" in pobj or "C19" in scn.props else set())))
        if scn.handed or got:
            k.ob(*dp)
        for x_ in want:
            n = sum(1 for g in got if g == x_)
            if n != 1:
                same = [g for g in got if g[0] == x_[0] and g != x_]
                if n == 0 and same:
                    k.f(("C17", "C19") if same[0][2] == x_[2] else ("C17", "C18"), "%s is deleted by deleter %s of %s, not by its own (%s of %s)" % (show(x_[0]), show(same[0][1]), same[0][2], x_[1], x_[2]), None, fst)
                elif n == 0 and any(is_ptr(g[0]) and is_ptr(x_[0]) and g[0][1] == x_[0][1] for g in got):
                    k.f(dp, "the deleter does not get the pointer which was handed over", None, fst)
                else:
                    k.f(dp, "%s is passed to its deleter %d times" % (show(x_[0]), n), None, fst)
        for g in got:
            if g[0] != 0 and not any(w_[0] == g[0] for w_ in want):
                if any(is_ptr(g[0]) and is_ptr(w_[0]) and g[0][1] == w_[0][1] for w_ in want):
                    continue
                k.f(dp, "%s, which was not handed over (or was released), is passed to deleter %s" % (show(g[0]), show(g[1])), None, fst)

    def allocations(self, k):
        """How often the operation allocates when it succeeds (least, most)."""
        n = k.scn.name
        if n.startswith(("mk", "al_mk", "al_ow", "sfc_", "mu_", "mup_", "mua_")):
            return 1, 1
        if n.startswith(("raw", "rd", "uq", "al_u")):
            return (0 if k.env.get("p") == 0 else 1), 1
        if n.startswith(("sf", "u_")):
            return 0, 0
        return None

    def registered(self, k, st, when, empty=False):
        k.ob("C09")
        for e in st.trace:
            if e[0] == "badreg":
                k.f("C09", "the control block is told of a reference which is %s" % e[2], e[-1], st)
        want = {}
        if not empty:
            for kind, var, t in k.scn.params:
                if kind == "raw" and t.startswith(("SP<", "WP<")):
                    c = k.cells(var, st).get(self.hcb)
                    cb = c[1] if c else U
                    if is_ptr(cb):
                        want.setdefault(cb, set()).add(("s" if t.startswith("SP") else "w", k.env[var]))
        for key in st.ghost:
            if isinstance(key, tuple) and key[0] == "reg":
                got = set(st.ghost[key])
                if got != want.get(key[1], set()):
                    k.f("C09", "announced pointers differ from the live ones %s" % when, None, st)
        if not empty:
            for cb in want:
                if ("reg", cb) not in st.ghost:
                    k.f("C09", "the pointer is not announced %s" % when, None, st)
