"""Suite: every operation on unique pointers, for every kind of deleter, and the factories of unique pointers."""
from . import build
from .engine import P, U, is_ptr
from .handles import show
from .runner import suite, funcs
from .s_create import listed, TRAITS
from .scenario import Scn, Runner, helper_source, mang

SRC = r'''
#include "prelude.hpp"
#include <xmem/unique_ptr.hpp>
#include <xmem/allocator.hpp>
#include <xmem/ostream.hpp>
struct VI { int a; A m; };
struct IL { // a list constructor next to an ordinary one
    int x;
    IL(long n, long v) { ev_args(this, "IL", this, this, this, n * 100 + v); }
    IL(std::initializer_list<long> l) { ev_args(this, "IL", this, this, this, -1); }
    ~IL() { ev_dtor(this, "IL"); }
};
TN(IL)
TN(VI)
W void fd1(A* p) { ev_del(p, 1, "A"); }
W void fd2(A* p) { ev_del(p, 2, "A"); }
W void fv1(void* p) { ev_del(p, 1, "void"); }
W void fv2(void* p) { ev_del(p, 2, "void"); }
W void fb1(B2* p) { ev_del(p, 1, "B2"); }
W void fb2(B2* p) { ev_del(p, 2, "B2"); }
using FA = void(*)(A*);
using FV = void(*)(void*);
using FB = void(*)(B2*);
template <typename T> struct ND_ : IdDel<T> { ND_() : IdDel<T>(0) {} ND_(long i) : IdDel<T>(i) {} };
W const void* up_D_B2(D* p) { B2* q = p; return q; }
W const void* up_ND_N2(ND* p) { N2* q = p; return q; }
W const void* up_D_B1(D* p) { B1* q = p; return q; }
'''


class Kind:
    """A kind of unique pointer: element, type, how to build one from (p, number), what a deletion looks like."""

    def __init__(self, name, el, ut, arg, newp=None, ids=(1, 2), delty=None, ref=None, default=False, array=False, upfrom=None):
        self.name, self.el, self.ut, self.arg, self.newp, self.ids, self.ref = name, el, ut, arg, newp, ids, ref
        self.delty = delty or el
        self.default = default
        self.array = array


KINDS = [
    Kind("dd", "A", "xmem::unique_ptr<A>", "", newp="new", default=True),
    Kind("dD", "D", "xmem::unique_ptr<D>", "", newp="new", default=True),
    Kind("db", "B2", "xmem::unique_ptr<B2>", "", newp="new", default=True),
    Kind("id", "A", "xmem::unique_ptr<A,IdDel<A>>", ", IdDel<A>({i})", default=True),
    Kind("md", "A", "xmem::unique_ptr<A,MDel<A>>", ", MDel<A>({i})"),
    Kind("ed", "A", "xmem::unique_ptr<A,EDel<A>>", ", EDel<A>()", ids=(77, 77), default=True),
    Kind("bd", "A", "xmem::unique_ptr<A,BDel<A>>", ", BDel<A>({i})"),
    Kind("dt", "Tdt", "xmem::unique_ptr<Tdt>", "", newp="new", default=True),
    Kind("dB", "Big", "xmem::unique_ptr<Big>", "", newp="new", default=True),
    Kind("rf", "A", "xmem::unique_ptr<A,MDel<A>&>", ", r{i}", ref="MDel<A>"),
    Kind("cr", "A", "xmem::unique_ptr<A,const IdDel<A>&>", ", r{i}", ref="const IdDel<A>"),
    Kind("fn", "A", "xmem::unique_ptr<A,FA>", ", &fd{i}"),
    Kind("fv", "A", "xmem::unique_ptr<A,FV>", ", &fv{i}", delty="void"),
    Kind("am", "Amp", "xmem::unique_ptr<Amp,IdDel<Amp>>", ", IdDel<Amp>({i})"),
    Kind("ca", "const A", "xmem::unique_ptr<const A,IdDel<const A>>", ", IdDel<const A>({i})", delty="A"),
    Kind("ad", "A", "xmem::unique_ptr<A[]>", "", newp="newarr", default=True, array=True),
    Kind("at", "Tdt", "xmem::unique_ptr<Tdt[]>", "", newp="newarr", default=True, array=True),
    Kind("ao", "Over", "xmem::unique_ptr<Over[]>", "", newp="newarr", default=True, array=True),
    Kind("ai", "A", "xmem::unique_ptr<A[],IdDel<A>>", ", IdDel<A>({i})", default=True, array=True),
    Kind("am2", "A", "xmem::unique_ptr<A[],MDel<A>>", ", MDel<A>({i})", array=True),
]


def gen():
    L = []

    def S(name, *a, **k):
        k.setdefault("obj_props", ("C18",))
        k.setdefault("mem_props", ("C18",))
        s = Scn(name, *a, **k)
        L.append(s)
        return s

    def kind(K):
        UT = K.ut

        def params(handles, extra=()):
            """handles: {var: 'N' null | 'P' pointer | None raw}; extra pointers"""
            ps, ints = [], {}
            i = 0
            for v, st in handles.items():
                ps.append(("raw", v, UT))
                i += 1
                if st is None:
                    continue
                ps.append(ptr("p" + v, st, ints))
            for v, st in extra:
                ps.append(ptr(v, st, ints))
            if K.ref:
                for i in (1, 2):
                    ps.append(("ref", "r%d" % i, K.ref))
                    ints["r%d" % i] = i
            return ps, ints

        def ptr(v, st, ints):
            if st == "N":
                return ("null", v, K.el)
            if K.newp:
                ints[v] = 2
                return (K.newp, v, K.el)
            return ("ext", v, K.el)

        def pe(v, st):
            return "std::addressof(%s)" % v if not K.newp and st != "N" else v

        def bld(v, i, st):
            return "::new(%s) UT(%s%s);" % (v, pe("p" + v, st), K.arg.format(i=i))
        us = "using UT = %s; " % UT
        r = lambda v: "(*static_cast<UT*>(%s))" % v
        kl = lambda v: "static_cast<UT*>(%s)->~UT();" % v

        def mkop(op, hs, code, final, during=(), extra=(), builds=None, fin=None, ret="void", rets=None, pure=False, raw=(), released=(), ownerdiff=None, install=None, dies=False, noexcept=True):
            """hs: operands with their state; final: operand -> (pointer variable or 0, deleter number);
            during: pointers deleted during the operation [(var, number)], in order"""
            for case in cases(hs):
                handles = {v: None for v in raw}
                handles.update(case)
                alias = None
                fin_ = dict(final(case))
                dur = [x for x in during(case)] if callable(during) else list(during)
                ps, ints = params(handles, extra)
                pre = us + "".join(bld(v, n + 1, case[v]) for n, v in enumerate(case))
                fins = us + "".join(kl(v) for v in fin_)
                name = "u_%s_%s_%s" % (K.name, op, "".join(case[v] for v in case))
                hd = []
                exm = dict(extra)
                for v, st in list(case.items()) + [(e, s) for e, s in extra]:
                    pass
                # every pointer: which number must delete it
                num = {}
                for n, v in enumerate(case):
                    if case[v] == "P":
                        num["p" + v] = n + 1
                for v, (pv, n) in fin_.items():
                    if pv and state_of(pv, case, exm) == "P":
                        num[pv] = n
                for pv, n in dur:
                    if state_of(pv, case, exm) == "P":
                        num[pv] = n
                rel = [x for x in released]
                for x in rel:
                    num.pop(x, None)
                handed = []
                if not K.newp:
                    handed = [(pv, K.ids[n - 1], K.delty) for pv, n in num.items()]
                snaps = [(v, (lambda k, st, v=v: ptr_off(k)), 8) for v in case]

                def check(k, case=case, fin_=fin_, dur=dur, exm=exm, rel=rel):
                    if k.kind != "ret":
                        return
                    expected(k, K, case, fin_, dur, exm, rets, install, dies, rel)
                S(name, ps, us + code(r, case), fins, None, pre, ret, check=check, props=("C18", "C19"), ints=ints, handed=handed,
                  noexcept=noexcept, pure=pure, snap=snaps if (dur or dies or install) else (), touches=bool(dur and K.newp))

        def cases(hs):
            out = [{}]
            for h in hs:
                out = [dict(o, **{h: s}) for o in out for s in "NP"]
            return out

        def state_of(pv, case, exm):
            if pv in exm:
                return exm[pv]
            return case.get(pv[1:], "N")

        PA = lambda c: "pa" if c["a"] == "P" else 0
        PB = lambda c: "pb" if c["b"] == "P" else 0
        mkop("ctor", ["a"], lambda r, c: "", lambda c: {"a": (PA(c), 1)})
        mkop("move", ["a"], lambda r, c: "::new(d) UT(std::move(%s));" % r("a"), lambda c: {"d": (PA(c), 1), "a": (0, 1)}, raw=("d",))
        mkop("massign", ["a", "b"], lambda r, c: "%s = std::move(%s);" % (r("a"), r("b")), lambda c: {"a": (PB(c), 2), "b": (0, 2)},
             during=lambda c: [("pa", 1)] if c["a"] == "P" else [], install=lambda c: {"a": PB(c)})
        mkop("mself", ["a"], lambda r, c: "%s = std::move(%s);" % (r("a"), r("a")), lambda c: {"a": (PA(c), 1)})
        mkop("null", ["a"], lambda r, c: "%s = nullptr;" % r("a"), lambda c: {"a": (0, 1)}, during=lambda c: [("pa", 1)] if c["a"] == "P" else [], install=lambda c: {"a": 0})
        mkop("reset0", ["a"], lambda r, c: "%s.reset();" % r("a"), lambda c: {"a": (0, 1)}, during=lambda c: [("pa", 1)] if c["a"] == "P" else [], install=lambda c: {"a": 0})
        mkop("resetn", ["a"], lambda r, c: "%s.reset(nullptr);" % r("a"), lambda c: {"a": (0, 1)}, during=lambda c: [("pa", 1)] if c["a"] == "P" else [], install=lambda c: {"a": 0})
        mkop("resetp", ["a"], lambda r, c: "%s.reset(%s);" % (r("a"), pe("q", "P")), lambda c: {"a": ("q", 1)}, extra=(("q", "P"),),
             during=lambda c: [("pa", 1)] if c["a"] == "P" else [], install=lambda c: {"a": "q"})
        mkop("dtor", ["a"], lambda r, c: kl("a"), lambda c: {}, during=lambda c: [("pa", 1)] if c["a"] == "P" else [], dies=True)
        mkop("swap", ["a", "b"], lambda r, c: "%s.swap(%s);" % (r("a"), r("b")), lambda c: {"a": (PB(c), 2), "b": (PA(c), 1)})
        mkop("swapself", ["a"], lambda r, c: "%s.swap(%s);" % (r("a"), r("a")), lambda c: {"a": (PA(c), 1)})
        mkop("stdswap", ["a", "b"], lambda r, c: "std::swap(%s, %s);" % (r("a"), r("b")), lambda c: {"a": (PB(c), 2), "b": (PA(c), 1)})
        # chains: what one operation leaves behind is what the next one finds
        mkop("reuse", ["a", "b"], lambda r, c: "{0} = std::move({1}); {1}.reset({2});".format(r("a"), r("b"), pe("q", "P")), lambda c: {"a": (PB(c), 2)} if K.name in ("md", "am2") else {"a": (PB(c), 2), "b": ("q", 2)},
             during=lambda c: [("pa", 1)] if c["a"] == "P" else [], extra=(("q", "P"),)) if K.name not in ("md", "am2") else None
        mkop("viamove", ["a", "b"], lambda r, c: "{ UT t(std::move(%s)); %s = std::move(%s); %s = std::move(t); }" % (r("a"), r("a"), r("b"), r("b")),
             lambda c: {"a": (PB(c), 2), "b": (PA(c), 1)})
        # a released pointer is never deleted: the witness deletes it in the destructor step for default deleters
        rel_fin = {"new": "delete ", "newarr": "delete[] "}
        for st_ in "NP":
            case = {"a": st_}
            ps, ints = params({"a": st_})
            S("u_%s_release_%s" % (K.name, st_), ps, us + "return (const void*)%s.release();" % r("a"),
              us + kl("a") + (("delete%s %s;" % ("[]" if K.newp == "newarr" else "", "pa")) if K.newp else ""), None, us + bld("a", 1, st_), "const void*",
              check=lambda k, case=case: k.kind == "ret" and expected(k, K_of(k), case, {"a": (0, 1)}, [], {}, lambda c: "pa" if c["a"] == "P" else 0, None, False, ["pa"]),
              props=("C18",), ints=ints, handed=[], noexcept=True)
        # queries
        q = dict(pure=True)
        mkop("get", ["a"], lambda r, c: "return (const void*)static_cast<const UT&>(%s).get();" % r("a"), lambda c: {"a": (PA(c), 1)}, ret="const void*", rets=PA, **q)
        mkop("bool", ["a"], lambda r, c: "return static_cast<bool>(static_cast<const UT&>(%s));" % r("a"), lambda c: {"a": (PA(c), 1)}, ret="bool", rets=lambda c: ("i", int(c["a"] == "P")), **q)
        mkop("print", ["a"], lambda r, c: "alignas(16) char buf[512]; std::ostream& os = *reinterpret_cast<std::ostream*>(buf); return &(os << static_cast<const UT&>(%s)) == &os ? ev_printed() : nullptr;" % r("a"),
             lambda c: {"a": (PA(c), 1)}, ret="const void*", rets=PA, **dict(q, noexcept=False))
        if not K.array:
            mkop("arrow", ["a"], lambda r, c: "return (const void*)static_cast<const UT&>(%s).operator->();" % r("a"), lambda c: {"a": (PA(c), 1)}, ret="const void*", rets=PA, **q)
        for nm, ex in [("deref", "*%s"), ("index", "%s[1]"), ("index_far", "%s[0x500000003]")]:
            if (nm == "deref") == K.array:
                continue
            ps, ints = params({"a": "P"})
            S("u_%s_%s" % (K.name, nm), ps, us + "return (const void*)std::addressof(%s);" % (ex % r("a")), us + kl("a"), None, us + bld("a", 1, "P"), "const void*",
              check=lambda k, nm=nm: address(k, {"index": 1, "index_far": 0x500000003}.get(nm, 0)), props=("C18",), ints=ints, handed=[("pa", K.ids[0], K.delty)] if not K.newp else [], noexcept=True, pure=True)
        if K.ref:
            for cst in ("", "const "):
                mkop("getdel" + cst.strip(), ["a"], lambda r, c, cst=cst: "return (const void*)std::addressof(static_cast<%sUT&>(%s).get_deleter());" % (cst, r("a")), lambda c: {"a": (PA(c), 1)},
                     ret="const void*", rets=lambda c: "r1", **q)
        if K.name == "fn":
            mkop("getdel", ["a"], lambda r, c: "return (const void*)static_cast<const UT&>(%s).get_deleter();" % r("a"), lambda c: {"a": (PA(c), 1)}, ret="const void*",
                 rets=lambda c: ("v", P("@fd1", 0)), **q)
        # constructors which only some kinds have
        if K.default:
            dd = K.newp and not False
            mkop("default", [], lambda r, c: "::new(d) UT();", lambda c: {"d": (0, 1)}, raw=("d",))
            mkop("nullctor", [], lambda r, c: "::new(d) UT(nullptr);", lambda c: {"d": (0, 1)}, raw=("d",))
            if K.newp or K.name == "ed":
                mkop("ptrctor", [], lambda r, c: "::new(d) UT(%s);" % pe("q", "P"), lambda c: {"d": ("q", 1)}, raw=("d",), extra=(("q", "P"),))
        elif K.name in ("rf", "cr"):
            mkop("delctor", [], lambda r, c: "::new(d) UT(r1); static_cast<UT*>(d)->reset(%s);" % pe("q", "P"), lambda c: {"d": ("q", 1)}, raw=("d",), extra=(("q", "P"),))
        elif K.name in ("fn", "fv"):
            mkop("delctor", [], lambda r, c: "::new(d) UT(&%s1); static_cast<UT*>(d)->reset(%s);" % ("fd" if K.name == "fn" else "fv", pe("q", "P")), lambda c: {"d": ("q", 1)}, raw=("d",), extra=(("q", "P"),))
        # an lvalue deleter is copied
        if K.name in ("id", "md", "ai", "am2"):
            D_ = {"id": "IdDel<A>", "md": "MDel<A>", "ai": "IdDel<A>", "am2": "MDel<A>"}[K.name]
            ps, ints = params({"d": None}, (("q", "P"),))
            ps.append(("ref", "x", D_))
            S("u_%s_lvdel" % K.name, ps, us + "::new(d) UT(%s, x);" % pe("q", "P"), us + kl("d"), None, us, check=lambda k: k.kind == "ret" and lvdel(k),
              props=("C18", "C19"), ints=dict(ints, x=1), handed=[("q", 1, K.delty)], noexcept=True)
        # comparisons
        for nm, o, ex in [("eq", "==", ("eq", 0, 0)), ("ne", "!=", ("eq", 0, 1)), ("lt", "<", ("ult", 0, 0)), ("le", "<=", ("ult", 1, 1)), ("gt", ">", ("ult", 1, 0)), ("ge", ">=", ("ult", 0, 1))]:
            mkop("cmp_" + nm, ["a", "b"], lambda r, c, o=o: "return %s %s %s;" % (r("a"), o, r("b")), lambda c: {"a": (PA(c), 1), "b": (PB(c), 2)}, ret="bool",
                 rets=lambda c, ex=ex: ("cmp", ex, PA(c), PB(c)), **q)
            mkop("cmps_" + nm, ["a"], lambda r, c, o=o: "return %s %s %s;" % (r("a"), o, r("a")), lambda c: {"a": (PA(c), 1)}, ret="bool",
                 rets=lambda c, ex=ex: ("cmp", ex, PA(c), PA(c)), **q)

    for K_ in KINDS:
        kind(K_)
    # ---- conversions
    CONV = [("dd", "D", "xmem::unique_ptr<D>", "B2", "xmem::unique_ptr<B2>", "new", "", "", None, ()),
            ("id", "D", "xmem::unique_ptr<D,IdDel<D>>", "B2", "xmem::unique_ptr<B2,IdDel<B2>>", "ext", ", IdDel<D>({i})", ", IdDel<B2>({i})", "B2", ()),
            ("idn", "ND", "xmem::unique_ptr<ND,IdDel<ND>>", "N2", "xmem::unique_ptr<N2,IdDel<N2>>", "ext", ", IdDel<ND>({i})", ", IdDel<N2>({i})", "N2", ()),
            ("rf", "D", "xmem::unique_ptr<D,MDel<B2>&>", "B2", "xmem::unique_ptr<B2,MDel<B2>&>", "ext", ", r{i}", ", r{i}", "B2", ("MDel<B2>",)),
            ("cr", "A", "xmem::unique_ptr<A,IdDel<A>&>", "A", "xmem::unique_ptr<A,const IdDel<A>&>", "ext", ", r{i}", ", r{i}", "A", ("IdDel<A>",)),
            ("rv", "A", "xmem::unique_ptr<A,MDel<A>&>", "A", "xmem::unique_ptr<A,MDel<A>>", "ext", ", r{i}", ", MDel<A>({i})", "A", ("MDel<A>",)),
            ("fn", "D", "xmem::unique_ptr<D,FB>", "B2", "xmem::unique_ptr<B2,FB>", "ext", ", &fb{i}", ", &fb{i}", "B2", ()),
            ("cc", "A", "xmem::unique_ptr<A,IdDel<const A>>", "const A", "xmem::unique_ptr<const A,IdDel<const A>>", "ext", ", IdDel<const A>({i})", ", IdDel<const A>({i})", "A", ())]
    for nm, u, UU, t, UT, pk, da, db, dty, refs in CONV:
        for ps_ in "NP":
            ps = [("raw", "a", UU), ("null", "pa", u) if ps_ == "N" else (pk, "pa", u)]
            ints = {}
            for i in (1, 2) if refs else ():
                ps.append(("ref", "r%d" % i, refs[0]))
                ints["r%d" % i] = i
            pe = "std::addressof(pa)" if pk == "ext" and ps_ == "P" else "pa"
            us = "using UU = %s; using UT = %s; " % (UU, UT)
            ba = us + "::new(a) UU(%s%s);" % (pe, da.format(i=1))
            ka = "static_cast<UU*>(a)->~UU();"
            kd = "static_cast<UT*>(d)->~UT();"
            hd = [("pa", 1, dty, lambda k, p, u=u, t=t: upc(k, p, u, t))] if pk == "ext" and ps_ == "P" else []
            chk = lambda k, u=u, t=t, UU=UU, UT=UT, nm=nm: k.kind == "ret" and converted(k, u, t, UU, UT, nm)
            S("u_conv_%s_%s" % (nm, ps_), [("raw", "d", UT)] + ps, us + "::new(d) UT(std::move(*static_cast<UU*>(a)));", us + kd + ka, None, ba, check=chk, props=("C18", "C19"), ints=ints,
              handed=hd, noexcept=True)
            for pd in "NP":
                ps2 = [("raw", "d", UT), ("null", "pd", t) if pd == "N" else (pk, "pd", t if pk == "ext" else u)] + ps
                hd2 = hd + ([("pd", 2, dty)] if pk == "ext" and pd == "P" else [])
                if u == "D" and pk == "new":
                    ex = "pd"
                else:
                    ex = "std::addressof(pd)" if pk == "ext" and pd == "P" else "pd"
                bd = "::new(d) UT(%s%s);" % (ex, db.format(i=2))
                S("u_conva_%s_%s%s" % (nm, pd, ps_), ps2, us + "*static_cast<UT*>(d) = std::move(*static_cast<UU*>(a));", us + kd + ka, None, ba + bd, check=chk, props=("C18", "C19"), ints=ints,
                  handed=hd2, noexcept=True, touches=pk == "new" and pd == "P", snap=[("d", lambda k, st: ptr_off(k, "d"), 8)])

    # ---- comparisons of different types: by the common type
    RELS = [("eq", "==", ("eq", 0, 0)), ("ne", "!=", ("eq", 0, 1)), ("lt", "<", ("ult", 0, 0)), ("le", "<=", ("ult", 1, 1)), ("gt", ">", ("ult", 1, 0)), ("ge", ">=", ("ult", 0, 1))]
    for u, t in (("D", "B2"), ("ND", "N2")):
        for nm, o, ex in RELS:
            for case in ("PP", "PN", "NP", "NN", "PS"):
                for sw in (0, 1):
                    UU, UT = "xmem::unique_ptr<%s,IdDel<%s>>" % (u, u), "xmem::unique_ptr<%s,IdDel<%s>>" % (t, t)
                    ps = [("raw", "a", UU), ("raw", "b", UT), ("null" if case[0] == "N" else "ext", "pa", u)]
                    if case[1] != "S":
                        ps.append(("null" if case[1] == "N" else "ext", "pb", t))
                    pe = lambda v, c: v if c == "N" else "std::addressof(%s)" % v
                    pb = "std::addressof(static_cast<%s&>(pa))" % t if case[1] == "S" else pe("pb", case[1])
                    us = "using UU = %s; using UT = %s; " % (UU, UT)
                    hd = ([("pa", 1, u)] if case[0] == "P" else []) + ([("pb", 2, t)] if case[1] == "P" else []) + \
                         ([("pa", 2, t, lambda k, p, u=u, t=t: upc(k, p, u, t))] if case[1] == "S" else [])
                    L_, R_ = "*static_cast<UU*>(a)", "*static_cast<UT*>(b)"
                    if sw:
                        L_, R_ = R_, L_
                    S("u_xcmp_%s_%s_%s%d" % (nm, u, case, sw), ps, us + "return %s %s %s;" % (L_, o, R_), us + "static_cast<UU*>(a)->~UU(); static_cast<UT*>(b)->~UT();", None,
                      us + "::new(a) UU(%s, IdDel<%s>(1)); ::new(b) UT(%s, IdDel<%s>(2));" % (pe("pa", case[0]), u, pb, t), ret="bool",
                      check=lambda k, u=u, t=t, ex=ex, case=case, sw=sw: k.kind == "ret" and compared(k, u, t, ex, case, sw), props=("C15",), handed=hd, noexcept=True, pure=True, touches=False)

    # ---- factories
    F = dict(obj_props=("C22", "C18"), mem_props=("C22", "C21"), props=("C22",))
    up = lambda t: ("raw", "d", "xmem::unique_ptr<%s>" % t)
    for t in ["A", "D", "Over", "Amp"] + list(TRAITS):
        for fn in ("make_unique", "make_unique_for_overwrite"):
            S("mu_%s_%s" % (fn, t), [up(t)], "::new(d) xmem::unique_ptr<%s>(xmem::%s<%s>());" % (t, fn, t), "kill<xmem::unique_ptr<%s>>(d);" % t, "", check=mu(t, "ctor"), touches=True, **F)
    S("mu_args", [up("Args"), ("ref", "a", "A"), ("ref", "b", "const A"), ("ref", "c", "A"), ("int", "i", "long")], "::new(d) xmem::unique_ptr<Args>(xmem::make_unique<Args>(a, b, std::move(c), i));",
      "kill<xmem::unique_ptr<Args>>(d);", "", check=mu("Args", "args", ("a", "b", "c", "i")), ints={"i": 987654321987}, touches=True, **F)
    S("mu_IL", [up("IL"), ("int", "i", "long"), ("int", "j", "long")], "::new(d) xmem::unique_ptr<IL>(xmem::make_unique<IL>(i, j));", "kill<xmem::unique_ptr<IL>>(d);", "", check=listed, ints={"i": 12, "j": 34}, touches=True, **F)
    S("mu_copy", [up("A"), ("ref", "a", "const A")], "::new(d) xmem::unique_ptr<A>(xmem::make_unique<A>(a));", "kill<xmem::unique_ptr<A>>(d);", "", check=mu("A", "copy", ("a",)), touches=True, **F)
    S("mu_move", [up("A"), ("ref", "a", "A")], "::new(d) xmem::unique_ptr<A>(xmem::make_unique<A>(std::move(a)));", "kill<xmem::unique_ptr<A>>(d);", "", check=mu("A", "move", ("a",)), touches=True, **F)
    S("mup_lv", [up("A"), ("ref", "a", "A")], "::new(d) xmem::unique_ptr<A>(xmem::make_unique_ptr(a));", "kill<xmem::unique_ptr<A>>(d);", "", check=mu("A", "copy", ("a",)), touches=True, **F)
    S("mup_rv", [up("A"), ("ref", "a", "A")], "::new(d) xmem::unique_ptr<A>(xmem::make_unique_ptr(std::move(a)));", "kill<xmem::unique_ptr<A>>(d);", "", check=mu("A", "move", ("a",)), touches=True, **F)
    S("mup_clv", [up("const A"), ("ref", "a", "const A")], "::new(d) xmem::unique_ptr<const A>(xmem::make_unique_ptr(a));", "kill<xmem::unique_ptr<const A>>(d);", "", check=mu("A", "copy", ("a",)), touches=True, **F)
    for t in TRAITS:
        if t != "Mvo":
            S("mup_lv_" + t, [up(t), ("ref", "a", t)], "::new(d) xmem::unique_ptr<{0}>(xmem::make_unique_ptr(a));".format(t), "kill<xmem::unique_ptr<%s>>(d);" % t, "", check=mu(t, "copy", ("a",)), touches=True, **F)
        S("mup_rv_" + t, [up(t), ("ref", "a", t)], "::new(d) xmem::unique_ptr<{0}>(xmem::make_unique_ptr(std::move(a)));".format(t), "kill<xmem::unique_ptr<%s>>(d);" % t, "", check=mu(t, "move", ("a",)), touches=True, **F)
    for fn, z in (("make_unique", True), ("make_unique_for_overwrite", False)):
        for t in ("Pod", "VI", "int"):
            S("mu_%s_%s" % (fn, t), [up(t)], "::new(d) xmem::unique_ptr<%s>(xmem::%s<%s>());" % (t, fn, t), "kill<xmem::unique_ptr<%s>>(d);" % t, "", check=mpod(z, t), touches=True, **F)
        for n in (0, 1, 3):
            for t in ("A", "Pod", "VI", "int", "Over", "Big", "Emp", "Ntc", "Tdt", "Ntd"):
                S("mua_%s_%s_%d" % (fn, t, n), [up(t + "[]"), ("int", "n", "unsigned long")], "::new(d) xmem::unique_ptr<%s[]>(xmem::%s<%s[]>(n));" % (t, fn, t), "kill<xmem::unique_ptr<%s[]>>(d);" % t, "",
                  check=marr(z, t, n), ints={"n": n}, touches=True, **F)
    # ---- the default allocator
    AL = dict(obj_props=("C21",), mem_props=("C21",), props=("C21",), touches=True)
    for t in ("A", "Over", "char", "Pod", "Big", "Emp", "Tdt"):
        for n in (0, 1, 7, "sym"):
            S("alloc_%s_%s" % (t, n), [("int", "n", "unsigned long")], "xmem::allocator<char> c; xmem::allocator<%s> al(c); return (const void*)al.allocate(n);" % t, None, "", ret="const void*",
              check=lambda k, t=t, n=n: k.kind == "ret" and allocd(k, t, n), ints={"n": n}, **AL)
            L[-1].fin = ""
        S("dealloc_" + t, [("int", "n", "unsigned long")], "xmem::allocator<%s> al; auto p = al.allocate(n); xmem::allocator<%s> b(al); b.deallocate(p, n);" % (t, t), "", None, "", ints={"n": 3}, **AL)
    return L


def K_of(k):
    for x in KINDS:
        if k.scn.name.startswith("u_%s_" % x.name):
            return x


def ptr_off(k, var="a"):
    t = [t for kind, v, t in k.scn.params if v == var][0]
    return k.suite.uoff(t)


def upc(k, p, u, t):
    if u == t or t == "const " + u:
        return p
    return k.suite.up(u, t, p)


def word(k, st, var):
    t = [t for kind, v, t in k.scn.params if v == var][0]
    r = st.mem[k.env[var][1]]
    return st.const(k.eng.read_cell(st, r, k.suite.uoff(t), 8))


def value(k, pv):
    return k.env[pv] if pv else 0


def deletions(k, K):
    """pointers deleted in main, in order, with the number of the deleter"""
    out = []
    if K is None or not K.newp:
        return [(e[1], e[2], e[3]) for e in k.main_tr if e[0] == "del"]
    return [(P(e[1], 0), None, None) for e in k.main_tr if e[0] == "free"]


def expected(k, K, case, fin, dur, exm, rets, install, dies, rel):
    st = k.st
    k.ob("C18", "C19")
    for v, (pv, n) in fin.items():
        want = value(k, pv)
        got = word(k, st, v)
        if got != want:
            k.f(("C18",), "%s designates %s, expected %s" % (v, show(got), show(want)))
    got = deletions(k, K)
    want = []
    for pv, n in dur:
        p = value(k, pv)
        if K.newp:
            want.append((P(p[1], 0), None, None))
        else:
            want.append((p, K.ids[n - 1], K.delty))
    if got != want:
        if [g[0] for g in got] == [w[0] for w in want]:
            k.f(("C19", "C18"), "deletes with deleter %s, expected %s" % ([show(g[1]) for g in got], [w[1] for w in want]))
        else:
            k.f(("C18",), "deletes %s, expected %s" % ([show(g[0]) for g in got], [show(w[0]) for w in want]))
    if rets is not None:
        w = rets(case)
        g = st.const(k.value)
        props = ("C18",)
        if isinstance(w, tuple) and w[0] == "cmp":
            props = ("C15",)
            k.ob("C15")
            ex, a, b = w[1], value(k, w[2]), value(k, w[3])
            if ex[1]:
                a, b = b, a
            t = k.eng.icmp(st, ex[0], a, b)
            if ex[2]:
                t = k.eng.neg(t)
            from .handles import same_bool
            if g == U or not same_bool(k.eng, st, g, t):
                k.f(props, "returns %s, expected %s" % (show(g), show(t)))
        else:
            if isinstance(w, tuple) and w[0] == "i":
                w = w[1]
                props = ("C15", "C18")
                k.ob("C15")
                if isinstance(g, tuple) and g[0] in ("C", "N", "O") and st.truth(g) is not None:
                    g = int(st.truth(g))
            elif isinstance(w, tuple) and w[0] == "v":
                w = w[1]
            else:
                w = value(k, w)
            if g != w:
                k.f(props, "returns %s, expected %s" % (show(g), show(w)))
    if K.ref:
        for i in (1, 2):
            intact(k, "r%d" % i, i)
    # what the operand designated while the deleter ran, and what happened afterwards
    first = None
    a = k.env.get("a")
    for n, e in enumerate(k.main_tr):
        if e[0] == "snap":
            k.ob("C20")
            if first is None:
                first = n
            if dies and e[1] == "a" and e[2] != value(k, "pa"):
                k.f(("C20",), "while the object is destroyed the unique pointer designates %s" % show(e[2]), e[-1])
            if install is not None:
                for v, pv in install(case).items():
                    if e[1] == v and e[2] != value(k, pv):
                        k.f(("C20",), "the old object is destroyed before the new pointer is installed", e[-1])
        elif e[0] == "oper" and first is not None and not e_assign(k, e) and is_ptr(a) and e[1] == a[1]:
            if e[5] == "na" and last_del(k) < n:
                k.ob("C20")
                k.f(("C20",), "accesses the unique pointer after the deleter has run", e[-1])


def last_del(k):
    return max([n for n, e in enumerate(k.main_tr) if e[0] in ("del", "free")] + [-1])


def e_assign(k, e):
    """move assignment goes on to transfer the deleter"""
    return "_massign_" in k.scn.name or "_reuse_" in k.scn.name or "_viamove_" in k.scn.name


def intact(k, var, n):
    k.ob("C19")
    for e in k.main_tr:
        if e[0] == "dmove" and e[2] == k.env[var] or e[0] == "dassign" and (e[1] == k.env[var] or e[2] == k.env[var] and e[3] == 1):
            k.f(("C19",), "a deleter which is held by reference is modified", e[-1])
    if k.st.mem[k.env[var][1]].cells.get(0, (8, None))[1] != n:
        k.f(("C19",), "a deleter which is held by reference is modified")


def lvdel(k):
    intact(k, "x", 1)


def address(k, n):
    if k.kind != "ret":
        return
    k.ob("C18")
    p = k.env["pa"]
    w = P(p[1], p[2] + n * SIZE.get(K_of(k).el, 4))
    if k.st.const(k.value) != w:
        k.f(("C18",), "returns %s, expected %s" % (show(k.value), show(w)))


def converted(k, u, t, UU, UT, nm):
    st = k.st
    k.ob("C18", "C19", "C28")
    pa = k.env["pa"]
    want = upc(k, pa, u, t) if pa != 0 else 0
    got = word(k, st, "d")
    if got != want:
        k.f(("C18",), "the result designates %s, expected %s" % (show(got), show(want)))
    if word(k, st, "a") != 0:
        k.f(("C18",), "the source still designates %s" % show(word(k, st, "a")))
    pd = k.env.get("pd", 0)
    old = [e for e in k.main_tr if e[0] in ("del", "free")]
    if nm != "dd":
        wd = [(pd, 2)] if pd != 0 else []
        gd = [(e[1], e[2]) for e in old if e[0] == "del"]
        if gd != wd:
            k.f(("C19", "C18") if [g[0] for g in gd] == [w[0] for w in wd] else ("C18",), "deletes %s, expected %s" % ([show(x) for x in gd], [show(x) for x in wd]))
    else:
        gd = [e[1] for e in old]
        wd = [pd[1]] if pd != 0 else []
        if gd != wd:
            k.f(("C18",), "deletes %d objects, expected %d" % (len(gd), len(wd)))
    for e in k.main_tr:
        if e[0] == "snap":
            k.ob("C20")
            if e[2] != want:
                k.f(("C20",), "the old object is destroyed before the new pointer is installed", e[-1])
    for v in ("r1", "r2"):
        if v in k.env:
            intact(k, v, int(v[1]))


def compared(k, u, t, ex, case, sw):
    from .handles import same_bool
    k.ob("C15")
    a = upc(k, k.env["pa"], u, t) if k.env["pa"] != 0 else 0
    b = a if case[1] == "S" else k.env["pb"]
    if bool(sw) != bool(ex[1]):
        a, b = b, a
    w = k.eng.icmp(k.st, ex[0], a, b)
    if ex[2]:
        w = k.eng.neg(w)
    g = k.st.const(k.value)
    if g == U or not same_bool(k.eng, k.st, g, w):
        k.f(("C15",), "returns %s, expected %s" % (show(g), show(w)))


def mu(ty, kind, frm=None):
    def check(k):
        if k.kind != "ret":
            return
        k.ob("C22")
        ev = k.constructed(ty)
        if len(ev) != 1:
            k.f(("C22",), "constructs %d objects of type %s" % (len(ev), ty))
            return
        if len([e for e in k.main_tr if e[0] == "alloc"]) != 1:
            k.f(("C22",), "allocates %d times" % len([e for e in k.main_tr if e[0] == "alloc"]))
        others = [e for e in k.main_tr if e[0] in ("ctor", "copy", "move", "args") and is_ptr(e[1]) and e[1][1] != ev[0][1][1]]
        if others:
            k.f(("C22",), "constructs another object (%s)" % others[0][2], others[0][-1])
        if ev[0][0] != kind:
            k.f(("C22",), "the object is built by %s construction, expected %s" % (ev[0][0], kind), ev[0][-1])
        elif frm is not None:
            want = tuple(k.env[x] for x in frm)
            got = tuple(k.st.const(x) for x in ev[0][3])
            if got != want:
                k.f(("C22",), "the object is built from %s, expected %s" % (show(got), show(want)), ev[0][-1])
        if word(k, k.st, "d") != ev[0][1]:
            k.f(("C22", "C18"), "the unique pointer designates %s, the object is at %s" % (show(word(k, k.st, "d")), show(ev[0][1])))
    return check


OFFS = {"Pod": (0, 4), "VI": (0,), "int": (0,)}


def mpod(zero, t, base=0):
    def check(k):
        if k.kind != "ret":
            return
        k.ob("C22")
        p = word(k, k.st, "d")
        if not is_ptr(p):
            k.f(("C22",), "no object")
            return
        scan(k, p, OFFS[t], zero)
    return check


def scan(k, p, offs, zero):
    r = k.st.mem[p[1]]
    vals = [k.st.const(k.eng.read_cell(k.st, r, p[2] + o, 4)) for o in offs]
    if zero and any(x != 0 for x in vals):
        k.f(("C22",), "is not value-initialized")
    if not zero and any(x != U for x in vals):
        k.f(("C22",), "is initialized although it is to be default-initialized")


SIZE = {"A": 4, "Pod": 8, "VI": 8, "int": 4, "Over": 64, "Big": 5000, "Emp": 1, "Ntc": 4, "Tdt": 4, "Ntd": 4}


def marr(zero, t, n):
    def check(k):
        if k.kind != "ret":
            return
        k.ob("C22", "C21")
        p = word(k, k.st, "d")
        if not is_ptr(p):
            k.f(("C22",), "no array")
            return
        al = [e for e in k.main_tr if e[0] == "alloc"]
        cookie = 64 if t == "Over" else 8 if t not in ("Pod", "int", "Tdt", "Ntd") else 0
        if len(al) != 1 or al[0][3] != n * SIZE[t] + cookie:
            k.f(("C22",), "allocates %s bytes, expected %s" % ([show(e[3]) for e in al], n * SIZE[t] + cookie))
            return
        if p != P(al[0][1], cookie):
            k.f(("C22", "C18"), "the unique pointer designates %s" % show(p))
            return
        for i in range(n):
            if t in OFFS:
                scan(k, P(p[1], p[2] + i * SIZE[t]), OFFS[t], zero)
        if t not in ("Pod", "int"):
            ev = [e[1] for e in k.constructed("A" if t == "VI" else t)]
            want = [P(p[1], p[2] + i * SIZE[t] + (4 if t == "VI" else 0)) for i in range(n)]
            if ev != want:
                k.f(("C22",), "constructs %d elements, expected %d" % (len(ev), n))
    return check


def allocd(k, t, n):
    size = {"A": 4, "Over": 64, "char": 1, "Pod": 8, "Big": 5000, "Emp": 1, "Tdt": 4}[t]
    al = {"A": 4, "Over": 64, "char": 1, "Pod": 4, "Big": 1, "Emp": 1, "Tdt": 4}[t]
    k.ob("C21")
    ev = [e for e in k.main_tr if e[0] == "alloc"]
    if len(ev) != 1 or not is_ptr(k.value) or k.value != P(ev[0][1], 0):
        k.f(("C21",), "allocate returns %s" % show(k.value))
    else:
        r = k.st.mem[ev[0][1]]
        got = r.meta.get("size")
        if n == "sym":
            nn = k.env["n"]
            want = k.eng.binop(k.st, "mul", nn, size, 64)
            if got != want:
                k.f(("C21",), "allocates %s bytes for n elements of %d bytes" % (show(got), size))
            elif size > 1:
                rg = k.st.rng(nn)
                if rg is None or rg[1] > ((1 << 64) - 1) // size:
                    k.f(("C21",), "the size of the allocation may overflow")
        elif got is None or not isinstance(got, int) or got < n * size or got > max(1, n * size) + 4096:
            k.f(("C21",), "allocates %s bytes for %d elements of %d bytes" % (show(got), n, size))
        a = r.meta.get("align")
        if not isinstance(a, int) or a < al:
            k.f(("C21",), "allocates with alignment %s, the type needs %d" % (show(a), al))
    for e in ev:
        k.st.w(e[1]).live = False  # the witness does not give it back


def sources(L):
    s = SRC + helper_source(L) + "template <typename T> void kill(void* p) { static_cast<T*>(p)->~T(); }\n"
    seen = set()
    for c in L:
        for kind, v, t in c.params:
            if kind == "raw" and t not in seen:
                seen.add(t)
                s += "W const void* gu_%s(%s& u) { return u.get(); }\nW const void* rl_%s(%s& u) { return u.release(); }\n" % (mang(t), t, mang(t), t)
    return s + "".join(c.source() for c in L)


class URunner(Runner):
    def __init__(self, m):
        self.offs = {}
        Runner.__init__(self, m, "U")

    def uoff(self, t):
        """where the pointer is: the word which get() returns"""
        if t not in self.offs:
            from .engine import State
            size = self.size(t)
            found = None
            for o in range(0, size, 8):
                st = State()
                r = st.new_region("u", size, "operand", "undef", {"operand": "u"})
                x = st.new_region("x", 64, "obj", "sym", {})
                for q in range(0, size, 8):
                    r.cells[q] = (8, P(x.rid) if q == o else 0)
                v, _ = self.single("gu_" + mang(t), [P(r.rid)], st)
                if v == P(x.rid):
                    found = o
            if found is None:
                from .ir import AnalysisError
                raise AnalysisError("cannot find the pointer in " + t)
            self.offs[t] = found
        return self.offs[t]

    def up(self, u, t, p):
        from .engine import State
        st = State()
        r = st.new_region("x", 4096, "obj", "sym", {})
        v, _ = self.single("up_%s_%s" % (u, t), [P(r.rid, p[2])], st)
        return P(p[1], v[2])


@suite("unique")
class Unique:
    def __init__(self, prop, tier, pre, config="17", only=None):
        self.scns = gen()
        if only:
            self.scns_run = [s for s in self.scns if any(s.name.startswith(o) for o in only)]
        else:
            self.scns_run = self.scns
        self.config = config
        self.m = build.module("u", sources(self.scns), [], config)
        self.r = URunner(self.m)

    def items(self):
        return self.scns_run

    def cost(self, s):
        return 1

    def label(self, s):
        return "%s config=%s" % (s.name, self.config)

    def run(self, s, r):
        h = self.r
        h.functions = {}
        h.stats = {k: 0 for k in h.stats}
        f, obl, cases = h.run(s)
        r.findings += f
        r.obl += obl
        r.cases += cases
        r.stats.update(h.stats)
        r.functions.update(funcs(h.functions))
