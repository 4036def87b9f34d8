"""Suite: every way to create an owner (shared pointers from values, raw and unique pointers, with deleters and allocators)."""
from . import build
from .engine import P, U, is_ptr
from .handles import show
from .runner import suite, funcs
from .scenario import Scn, Runner, helper_source, mang

SRC = r'''
#include "family.hpp"
#include <initializer_list>
template <typename T> void kill(void* p) { static_cast<T*>(p)->~T(); }
struct VI { int a; A m; };
TN(VI)
struct EFC : EF { // reaches its owner through a copy
    using EF::EF;
};
template <typename T> struct type_of { static const char* get() { return type_name<T>::get(); } };
template <> struct type_of<void> { static const char* get() { return "void"; } };
struct GDel { // whatever pointer type it gets
    long id;
    explicit GDel(long i) : id(i) {}
    template <typename T> void operator()(T* p) const noexcept { ev_del(p, id, type_of<T>::get()); }
};
struct IL { // a list constructor next to an ordinary one
    int x;
    IL() { ev_ctor(this, "IL"); }
    IL(long n, long v) { ev_args(this, "IL", this, this, this, n * 100 + v); }
    IL(std::initializer_list<long> l) { ev_args(this, "IL", this, this, this, -1); }
    IL(const IL& o) { ev_copy(this, "IL", std::addressof(o)); }
    ~IL() { ev_dtor(this, "IL"); }
};
TN(IL)
struct Opn { // an operator new of its own must not be used to construct in place
    int x;
    static void* operator new(unsigned long) { return nullptr; }
    static void* operator new(unsigned long, void* p) noexcept { return static_cast<char*>(p) + 1; }
    template <typename T> static void* operator new(unsigned long, T* p) noexcept { return reinterpret_cast<char*>(p) + 2; }
    static void operator delete(void*) {}
    EV_SPECIAL(Opn)
    ~Opn() { ev_dtor(this, "Opn"); }
};
TN(Opn)
W void fdel3(A* p) { ev_del(p, 3, "A"); }
W void fdel4(void* p) { ev_del(p, 4, "void"); }
template <typename T> struct type_name_ptr;
W void derive_sp(void* d) { ::new(d) SP<A>(MAKE<A>()); }
W const void* up_D_B2(D* p) { B2* q = p; return q; }
W const void* up_ND_N2(ND* p) { N2* q = p; return q; }
W const void* up_EFD_B1(EFD* p) { B1* q = p; return q; }
W const void* up_EFB_EFT(EFB* p) { EFT* q = p; return q; }
W const void* up_EFD_EF(EFD* p) { EF* q = p; return q; }
W void wft_EF(void* d, EF& o) { ::new(d) WP<void>(o.weak_from_this()); }
W void wft_EFD(void* d, EFD& o) { ::new(d) WP<void>(o.weak_from_this()); }
W void wft_EFN(void* d, EFN& o) { ::new(d) WP<void>(o.weak_from_this()); }
W void wft_EFB(void* d, EFB& o) { ::new(d) WP<EFT>(o.weak_from_this()); }
W void wft_EFT(void* d, EFT& o) { ::new(d) WP<EFT>(o.weak_from_this()); }
W void sft_EF(void* d, EF& o) { ::new(d) SP<void>(o.shared_from_this()); }
W void sft_EFD(void* d, EFD& o) { ::new(d) SP<void>(o.shared_from_this()); }
W void sft_EFT(void* d, EFT& o) { ::new(d) SP<EFT>(o.shared_from_this()); }
W unsigned long cb_size_hint() { return sizeof(CB); }
'''


def ptr_of(k, d, t):
    v, _ = k.q("gt_" + mang(t), k.env[d])
    return k.st.const(v)


def dtype(k, d):
    return [t for kind, v, t in k.scn.params if v == d][0]


def owned(k, d, want_ptr, props, count=1):
    """d is an owner with count 1 which designates want_ptr"""
    t = dtype(k, d)
    got = ptr_of(k, d, t)
    k.ob(*props)
    if got != want_ptr:
        k.f(props, "the new pointer designates %s, expected %s" % (show(got), show(want_ptr)))
    ow, _ = k.q("ow_" + mang(t), k.env[d])
    k.ob("C01")
    if not is_ptr(ow):
        k.f(("C01",) + props, "the new pointer has no owner")
    n, _ = k.q("uc_" + mang(t), k.env[d])
    n = k.st.const(n)
    if n != count:
        k.f(("C01",), "a new owner has the count %s, expected %s" % (show(n), count))


def conv(k, p, U_, T):
    if T in ("void", "const void", U_, "const " + U_) or p == 0 or not is_ptr(p):
        return p
    v, _ = k.q("up_%s_%s" % (U_, T), p)
    return v


def kept_alive(k, old=()):
    """nothing is destroyed while the owner is created (but what the operand held before)"""
    for e in k.main_tr:
        if e[0] == "del" or e[0] == "dtor" and not any(e[1] == o for o in old):
            if e[0] == "dtor" and any(c[0] in ("ctor", "copy", "move", "args") and c[1] == e[1] for c in k.main_tr) and k.kind == "unwind":
                continue
            if k.kind == "ret":
                k.f(("C17", "C03"), "destroys an object which is just being handed over", e[-1])


def made(ty, T=None, kind="ctor", frm=None, props=("C22",), count=1, extra=None):
    """one object of type ty is constructed in the storage which the result designates"""
    def check(k):
        kept_alive(k)
        if k.kind != "ret":
            return
        ev = k.constructed(ty)
        k.ob(*props)
        if len(ev) != 1:
            k.f(props, "constructs %d objects of type %s" % (len(ev), ty))
            return
        others = [e for e in k.main_tr if e[0] in ("ctor", "copy", "move", "args") and is_ptr(e[1]) and e[1][1] != ev[0][1][1]]
        if others:
            k.f(props, "constructs another object (%s)" % others[0][2], others[0][-1])
        if ev[0][0] != kind:
            k.f(props, "the object is built by %s construction, expected %s" % (ev[0][0], kind), ev[0][-1])
        elif frm is not None:
            want = tuple(k.env[x] if isinstance(x, str) else x for x in frm)
            got = tuple(k.st.const(x) for x in ev[0][3])
            if got != want:
                k.f(props, "the object is built from %s, expected %s" % (show(got), show(want)), ev[0][-1])
        if T is not None:
            owned(k, "d", conv(k, ev[0][1], ty, T), props, count)
        else:
            owned(k, "d", ev[0][1], props, count)
        if extra:
            extra(k, ev[0][1])
    return check


def listed(k):
    if k.kind != "ret":
        return
    ev = k.constructed("IL")
    k.ob("C22")
    if len(ev) != 1:
        k.f("C22", "constructs %d objects" % len(ev))
    elif ev[0][0] != "args" or k.st.const(ev[0][3][-1]) != 1234:
        k.f("C22", "the arguments are not passed to the constructor as T(args...)", ev[0][-1])


def pod(zero, T="Pod"):
    """a plain object is zeroed by value initialization and left alone by default initialization"""
    def check(k):
        if k.kind != "ret":
            return
        v = ptr_of(k, "d", dtype(k, "d"))
        k.ob("C22")
        if not is_ptr(v):
            k.f(("C22",), "no object")
            return
        r = k.st.mem[v[1]]
        vals = [k.eng.read_cell(k.st, r, v[2] + o, 4) for o in ((0, 4) if T == "Pod" else (0,))]
        if zero and any(k.st.const(x) != 0 for x in vals):
            k.f(("C22",), "the object is not value-initialized")
        if not zero and any(x != U for x in vals):
            k.f(("C22",), "the object is initialized although it is to be default-initialized")
    return check


def taken(ptr, U_, T, props=("C17",), count=1, src=None, old=None, final=None):
    """the raw pointer or unique pointer was taken over"""
    def check(k):
        p = k.env[ptr]
        if k.kind != "ret":
            return
        for e in k.main_tr:
            if is_ptr(p) and (e[0] == "del" and is_ptr(e[1]) and e[1][1] == p[1] or e[0] == "dtor" and is_ptr(e[1]) and e[1][1] == p[1]):
                k.f(("C17", "C03"), "destroys the object which is being handed over", e[-1])
            if e[0] in ("ctor", "copy", "move") and not (is_ptr(e[1]) and e[1][1] == p[1]):
                k.f(props, "constructs a %s" % e[2], e[-1])
        owned(k, "d", conv(k, p, U_, T), props, count)
        if src:
            got, _ = k.q("gu_" + mang(dtype(k, src)), k.env[src])
            k.ob("C19", "C17")
            if k.st.const(got) != 0:
                k.f(("C17", "C19"), "the unique pointer still holds the object")
        if old:
            drop_old(k)
    return check


def drop_old(k):
    """the previous object dies in the operation, once the operand has its final value, and is the last thing that happens"""
    k.ob("C10")
    fin = k.cells("d")
    seen = None
    for n, e in enumerate(k.main_tr):
        if e[0] == "dtor" and e[2] == "A" and seen is None:
            seen = n
        elif e[0] == "oper" and seen is not None:
            k.f("C10", "accesses %s after the old object was destroyed" % k.st.mem[e[1]].name, e[-1])
            break
    if seen is None:
        k.f(("C03", "C01"), "the old object is not destroyed")
        return
    for s in [e for e in k.main_tr if e[0] == "snap"]:
        if s[2] != k.st.const(fin.get(k.suite.hcb, (0, None))[1]):
            k.f("C10", "the old object is destroyed before the pointer has its new value", s[-1])


def shared_from(ty, T):
    """the object refers to its owner and to itself"""
    def check(k):
        if k.kind != "ret":
            return
        k.ob("C16")
        h = ptr_of(k, "d", dtype(k, "d"))
        if T == "int":
            pass
        full = k.full(k) if hasattr(k, "full") else None
        ev = k.constructed(ty) if ty else []
        obj = ev[0][1] if ev else k.env.get("p")
        if not is_ptr(obj):
            return
        gives_out(k, ty or T, obj, "d")
    return check


def gives_out(k, ty, obj, d, props=("C16",), to=None):
    s = k.st.clone()
    s.trace = ()
    r = s.new_region("weak", k.suite.size("SP<A>"), "raw", "undef", {})
    _, s = k.suite.single("wft_" + ty, [P(r.rid), obj], s)
    c = s.mem[r.rid].cells
    lay = k.suite.hcb
    got = (s.const(c.get(lay, (0, U))[1]), s.const([v for o, (z, v) in c.items() if o != lay][0]))
    if d is None:
        if got[0] != 0:
            k.f(props, "the object refers to an owner although it has none")
        return
    ow, _ = k.q("ow_" + mang(dtype(k, d)), k.env[d])
    if got[0] != ow:
        k.f(props, "the object refers to %s, its owner is %s" % (show(got[0]), show(ow)))
    elif got[1] != (obj if to is None else to):
        k.f(props, "the object gives out %s, expected %s" % (show(got[1]), show(obj if to is None else to)))


def allocs(uid):
    """every allocation goes through the user allocator uid"""
    def check(k):
        k.ob("C21")
        for e in k.main_tr:
            if e[0] == "alloc" and (e[2] != "user" or e[3] != uid):
                k.f(("C21",), "allocates through %s instead of the given allocator" % (e[2] if e[2] != "user" else "user allocator %s" % show(e[3])), e[-1])
    return check


def both(*cs):
    def check(k):
        for c in cs:
            c(k)
    return check


TRAITS = ("Big", "Emp", "Ntc", "Fin", "Tdt", "Ntd", "Mvo")


def scenarios():
    L = []

    def S(*a, **k):
        k.setdefault("touches", True)
        k.setdefault("internal", a[0].startswith("al_"))
        s = Scn(*a, **k)
        L.append(s)
        return s
    d = lambda t: ("raw", "d", "SP<%s>" % t)
    mk = dict(props=("C22", "C01"))
    # ---- objects made in place
    for t, T in [("A", "A"), ("D", "B2"), ("D", "D"), ("ND", "N2"), ("A", "void"), ("A", "const A"), ("Over", "Over"), ("Amp", "Amp"), ("EF", "EF"), ("EFT", "EFT"),
                 ("EFD", "EFD"), ("EFD", "B1"), ("EF", "void"), ("EFD", "EF"), ("EFN", "EFN"), ("EFN", "const void"), ("EFB", "EFB"), ("EFB", "EFT")] + [(t, t) for t in TRAITS]:
        ch = [made(t, T)]
        pr = mk["props"]
        if t.startswith("EF"):
            ch.append(shared_from(t, T))
            pr = pr + ("C16",)
        S("mk_%s_%s" % (t, mang(T)), [d(T)], "::new(d) SP<%s>(MAKE<%s>());" % (T, t), "kill<SP<%s>>(d);" % T, "", check=both(*ch), props=pr)
        S("mkow_%s_%s" % (t, mang(T)), [d(T)], "::new(d) SP<%s>(MAKE_OW<%s>());" % (T, t), "kill<SP<%s>>(d);" % T, "", check=both(*ch), props=pr)
    for t in ("A", "D", "Opn", "EF", "EFT", "EFD", "EFN", "EFB", "Big", "Ntd"):
        for nm, f in (("mkc", "MAKE"), ("mkcow", "MAKE_OW")):
            ch = [made(t, "const " + t)]
            pr = mk["props"]
            if t.startswith("EF"):
                ch.append(shared_from(t, None))
                pr = pr + ("C16",)
            S("%s_%s" % (nm, t), [d("const " + t)], "::new(d) SP<const %s>(%s<const %s>());" % (t, f, t), "kill<SP<const %s>>(d);" % t, "", check=both(*ch), props=pr)
    for nm, f in (("mk", "MAKE"), ("mkow", "MAKE_OW")):
        S("%s_opn" % nm, [d("Opn")], "::new(d) SP<Opn>(%s<Opn>());" % f, "kill<SP<Opn>>(d);", "", check=made("Opn", "Opn"), **mk)
    S("mkptr_clv", [d("const A"), ("ref", "a", "const A")], "::new(d) SP<const A>(MAKE_PTR(a));", "kill<SP<const A>>(d);", "", check=made("A", "const A", "copy", ("a",)), **mk)
    S("mkptr_Opn", [d("Opn"), ("ref", "a", "Opn")], "::new(d) SP<Opn>(MAKE_PTR(std::move(a)));", "kill<SP<Opn>>(d);", "", check=made("Opn", "Opn", "move", ("a",)), **mk)
    S("mk_Args", [d("Args"), ("ref", "a", "A"), ("ref", "b", "const A"), ("ref", "c", "A"), ("int", "i", "long")],
      "::new(d) SP<Args>(MAKE<Args>(a, b, std::move(c), i));", "kill<SP<Args>>(d);", "", check=made("Args", "Args", "args", ("a", "b", "c", "i")), ints={"i": 1234567890123}, **mk)
    S("mk_IL", [d("IL"), ("int", "i", "long"), ("int", "j", "long")], "::new(d) SP<IL>(MAKE<IL>(i, j));", "kill<SP<IL>>(d);", "", check=listed, ints={"i": 12, "j": 34}, **mk)
    S("mkptr_IL", [d("IL"), ("ref", "a", "const IL")], "::new(d) SP<IL>(MAKE_PTR(IL(a)));", "kill<SP<IL>>(d);", "",
      check=lambda k: k.kind == "ret" and (k.ob("C22"), [k.f("C22", "the object is not copied as written", e[-1]) for e in k.main_tr if e[0] == "args"]), **mk)
    S("mk_A_copy", [d("A"), ("ref", "a", "const A")], "::new(d) SP<A>(MAKE<A>(a));", "kill<SP<A>>(d);", "", check=made("A", "A", "copy", ("a",)), **mk)
    S("mk_A_move", [d("A"), ("ref", "a", "A")], "::new(d) SP<A>(MAKE<A>(std::move(a)));", "kill<SP<A>>(d);", "", check=made("A", "A", "move", ("a",)), **mk)
    S("mk_Pod", [d("Pod")], "::new(d) SP<Pod>(MAKE<Pod>());", "kill<SP<Pod>>(d);", "", check=pod(True), **mk)
    S("mkow_Pod", [d("Pod")], "::new(d) SP<Pod>(MAKE_OW<Pod>());", "kill<SP<Pod>>(d);", "", check=pod(False), **mk)
    S("mk_VI", [d("VI")], "::new(d) SP<VI>(MAKE<VI>());", "kill<SP<VI>>(d);", "", check=pod(True, "VI"), **mk)
    S("mkow_VI", [d("VI")], "::new(d) SP<VI>(MAKE_OW<VI>());", "kill<SP<VI>>(d);", "", check=pod(False, "VI"), **mk)
    for t in TRAITS:
        if t != "Mvo":
            S("mkptr_lv_" + t, [d(t), ("ref", "a", t)], "::new(d) SP<%s>(MAKE_PTR(a));" % t, "kill<SP<%s>>(d);" % t, "", check=made(t, t, "copy", ("a",)), **mk)
        S("mkptr_rv_" + t, [d(t), ("ref", "a", t)], "::new(d) SP<%s>(MAKE_PTR(std::move(a)));" % t, "kill<SP<%s>>(d);" % t, "", check=made(t, t, "move", ("a",)), **mk)
    S("mkptr_lv", [d("A"), ("ref", "a", "A")], "::new(d) SP<A>(MAKE_PTR(a));", "kill<SP<A>>(d);", "", check=made("A", "A", "copy", ("a",)), **mk)
    S("mkptr_rv", [d("A"), ("ref", "a", "A")], "::new(d) SP<A>(MAKE_PTR(std::move(a)));", "kill<SP<A>>(d);", "", check=made("A", "A", "move", ("a",)), **mk)
    S("mkptr_EF", [d("EF"), ("ref", "a", "EF")], "::new(d) SP<EF>(MAKE_PTR(a));", "kill<SP<EF>>(d);", "",
      check=both(made("EF", "EF", "copy", ("a",)), shared_from("EF", "EF"), lambda k: gives_out(k, "EF", k.env["a"], None)), props=("C22", "C01", "C16"))
    # assigned over an existing owner
    S("mk_assign", [d("A")], "*static_cast<SP<A>*>(d) = MAKE<A>();", "kill<SP<A>>(d);", pre="::new(d) SP<A>(MAKE<A>());", keeps=("d",),
      check=lambda k: k.kind == "ret" and drop_old(k), old=True, **mk)

    # ---- allocators
    for nm, al, uid in [("id", "IdAlloc<char>(9)", 9), ("th", "ThAlloc<char>()", 5), ("idA", "IdAlloc<A>(8)", 8)]:
        for t in ["A", "Over", "EF"] + (["Big", "Emp", "Ntc", "Fin", "Tdt", "Ntd", "EFN", "EFB"] if nm != "idA" else []):
            ch = [made(t, t), allocs(uid)]
            S("al_mk_%s_%s" % (nm, t), [d(t)], "::new(d) SP<%s>(CBF::make_resource_cb<%s>(%s));" % (t, t, al), "kill<SP<%s>>(d);" % t, "", check=both(*ch), props=("C21", "C22", "C01"))
            S("al_ow_%s_%s" % (nm, t), [d(t)], "::new(d) SP<%s>(CBF::make_resource_cb_for_overwrite<%s>(%s));" % (t, t, al), "kill<SP<%s>>(d);" % t, "", check=both(*ch), props=("C21", "C22", "C01"))
        S("al_u_%s" % nm, [d("A"), ("raw", "u", "xmem::unique_ptr<A,IdDel<A>>"), ("ext", "p", "A")],
          "::new(d) SP<A>(CBF::make_uptr_cb(*static_cast<xmem::unique_ptr<A,IdDel<A>>*>(u), %s));" % al, "kill<SP<A>>(d); kill<xmem::unique_ptr<A,IdDel<A>>>(u);",
          "kill<xmem::unique_ptr<A,IdDel<A>>>(u);", "::new(u) xmem::unique_ptr<A,IdDel<A>>(&p, IdDel<A>(7));", keeps=("u",), handed=[("p", 7, "A")],
          check=both(taken("p", "A", "A", src="u"), allocs(uid)), props=("C21", "C17", "C11"))

    # ---- raw pointers, default deleter
    for u, T in [("A", "A"), ("D", "B2"), ("D", "D"), ("A", "void"), ("A", "const A"), ("ND", "N2"), ("D", "const void"), ("Over", "Over"), ("Amp", "Amp"), ("VD", "V")] + [(t, t) for t in TRAITS] + [("Big", "void"), ("Tdt", "const void"), ("EFN", "EFN"), ("EFB", "EFB"), ("EF", "EF"), ("EFD", "EF"), ("EFT", "EFT")]:
        if T == "V":
            ck = None
        else:
            ck = taken("p", u, T.replace("const void", "void"))
            if u.startswith("EF"):
                ck = both(ck, lambda k, u=u: k.kind == "ret" and (k.ob("C16"), gives_out(k, u, k.env["p"], "d")))
        S("raw_%s_%s" % (u, mang(T)), [d(T), ("new", "p", u)], "::new(d) SP<%s>(p);" % T, "kill<SP<%s>>(d);" % T, "", check=ck, props=("C17", "C11") + (("C16",) if u.startswith("EF") else ()))
        S("rawreset_%s_%s" % (u, mang(T)), [d(T), ("new", "p", u)], "static_cast<SP<%s>*>(d)->reset(p);" % T, "kill<SP<%s>>(d);" % T,
          pre="::new(d) SP<%s>();" % T, check=ck, keeps=("d",), props=("C17", "C11") + (("C16",) if u.startswith("EF") else ()))
    for n in (1, 3):
        S("rawarr_%d" % n, [d("A[]"), ("newarr", "p", "A")], "::new(d) SP<A[]>(p);", "kill<SP<A[]>>(d);", "", check=taken("p", "A", "A"), ints={"p": n}, props=("C17", "C11", "C21"))
        S("rawarrreset_%d" % n, [d("A[]"), ("newarr", "p", "A")], "static_cast<SP<A[]>*>(d)->reset(p);", "kill<SP<A[]>>(d);",
          pre="::new(d) SP<A[]>();", keeps=("d",), check=taken("p", "A", "A"), ints={"p": n}, props=("C17", "C11", "C21"))
    S("rawarr_const", [d("const A[]"), ("newarr", "p", "A")], "::new(d) SP<const A[]>(p);", "kill<SP<const A[]>>(d);", "", check=taken("p", "A", "const A"), ints={"p": 2}, props=("C17", "C11", "C21"))
    S("raw_null", [d("A"), ("null", "p", "A")], "::new(d) SP<A>(p);", "kill<SP<A>>(d);", "", check=taken("p", "A", "A"), props=("C17",))
    S("rawreset_old", [d("A"), ("new", "p", "A")], "static_cast<SP<A>*>(d)->reset(p);", "kill<SP<A>>(d);",
      pre="::new(d) SP<A>(MAKE<A>());", keeps=("d",), check=lambda k: k.kind == "ret" and taken("p", "A", "A")(k) or k.kind == "ret" and drop_old(k), old=True, props=("C17", "C11"))

    # ---- raw pointers with deleters
    dels = [("id", "IdDel<{u}>(7)", 7, None), ("md", "MDel<{u}>(6)", 6, None), ("ed", "EDel<{u}>()", 77, None), ("bd", "BDel<{u}>(8)", 8, None)]
    for nm, ex, did, _ in dels:
        for u, T in [("A", "A"), ("D", "B2"), ("A", "void"), ("ND", "N2"), ("A", "const A"), ("EF", "EF"), ("EFD", "EF"), ("EFD", "B1")] + [(t, t) for t in TRAITS + ("EFN", "EFB")]:
            e = ex.format(u=u)
            ch = [taken("p", u, T)]
            pr = ("C17", "C11")
            if u.startswith("EF"):
                ch.append(lambda k, u=u: k.kind == "ret" and gives_out(k, u, k.env["p"], "d"))
                pr += ("C16",)
            S("rd_%s_%s_%s" % (nm, u, mang(T)), [d(T), ("ext", "p", u)], "::new(d) SP<%s>(std::addressof(p), %s);" % (T, e), "kill<SP<%s>>(d);" % T, "",
              check=both(*ch), handed=[("p", did, u)], props=pr)
            S("rdreset_%s_%s_%s" % (nm, u, mang(T)), [d(T), ("ext", "p", u)], "static_cast<SP<%s>*>(d)->reset(std::addressof(p), %s);" % (T, e), "kill<SP<%s>>(d);" % T,
              pre="::new(d) SP<%s>();" % T, check=both(*ch), handed=[("p", did, u)], keeps=("d",), props=pr)
        S("rd_%s_arr" % nm, [d("A[]"), ("ext", "p", "A")], "::new(d) SP<A[]>(&p, %s);" % ex.format(u="A"), "kill<SP<A[]>>(d);", "",
          check=taken("p", "A", "A"), handed=[("p", did, "A")], props=("C17", "C11"))
        S("rd_%s_null" % nm, [d("A"), ("null", "p", "A")], "::new(d) SP<A>(p, %s);" % ex.format(u="A"), "kill<SP<A>>(d);", "", check=taken("p", "A", "A"), props=("C17", "C11"))
        S("rd_%s_nullptr" % nm, [d("A"), ("null", "p", "A")], "::new(d) SP<A>(nullptr, %s);" % ex.format(u="A"), "kill<SP<A>>(d);", "", check=taken("p", "A", "A"), props=("C17", "C11"))
        S("rd_%s_EFnull" % nm, [d("EF"), ("null", "p", "EF")], "::new(d) SP<EF>(p, %s);" % ex.format(u="EF"), "kill<SP<EF>>(d);", "", check=taken("p", "EF", "EF"), props=("C17", "C16"))
    S("rd_fn", [d("A"), ("ext", "p", "A")], "::new(d) SP<A>(&p, &fdel3);", "kill<SP<A>>(d);", "", check=taken("p", "A", "A"), handed=[("p", 3, "A")], props=("C17", "C11"))
    S("rd_fnv", [d("A"), ("ext", "p", "A")], "::new(d) SP<A>(&p, &fdel4);", "kill<SP<A>>(d);", "", check=taken("p", "A", "A"), handed=[("p", 4, "void")], props=("C17", "C11"))
    S("rdreset_fn", [d("A"), ("ext", "p", "A")], "static_cast<SP<A>*>(d)->reset(&p, &fdel3);", "kill<SP<A>>(d);", pre="::new(d) SP<A>();", keeps=("d",),
      check=taken("p", "A", "A"), handed=[("p", 3, "A")], props=("C17", "C11"))
    S("rd_lambda", [d("A"), ("ext", "p", "A"), ("int", "i", "long")], "::new(d) SP<A>(&p, [i](A* q) { ev_del(q, i, \"A\"); });", "kill<SP<A>>(d);", "",
      check=taken("p", "A", "A"), handed=[("p", 12, "A")], ints={"i": 12}, props=("C17", "C11"))
    S("rd_arrdel", [d("A[]"), ("newarr", "p", "A")], "::new(d) SP<A[]>(p, xmem::default_delete<A[]>());", "kill<SP<A[]>>(d);", "", check=taken("p", "A", "A"), ints={"p": 2}, props=("C17", "C21"))
    S("rdreset_old", [d("A"), ("ext", "p", "A")], "static_cast<SP<A>*>(d)->reset(&p, IdDel<A>(7));", "kill<SP<A>>(d);",
      pre="::new(d) SP<A>(MAKE<A>());", keeps=("d",), handed=[("p", 7, "A")],
      check=lambda k: k.kind == "ret" and (taken("p", "A", "A")(k), drop_old(k)), old=True, props=("C17", "C11"))
    # ... and with an allocator
    for nm, al, uid in [("id", "IdAlloc<char>(9)", 9), ("th", "ThAlloc<char>()", 5), ("idA", "IdAlloc<A>(8)", 8)]:
        for u, T in [("A", "A"), ("D", "B2"), ("A", "void"), ("EFD", "EF")]:
            ch = [taken("p", u, T), allocs(uid)]
            pr = ("C21", "C17", "C11")
            if u.startswith("EF"):
                ch.append(lambda k, u=u: k.kind == "ret" and gives_out(k, u, k.env["p"], "d"))
                pr += ("C16",)
            S("rdreset_al_%s_%s_%s" % (nm, u, mang(T)), [d(T), ("ext", "p", u)], "static_cast<SP<%s>*>(d)->reset(std::addressof(p), IdDel<%s>(7), %s);" % (T, u, al), "kill<SP<%s>>(d);" % T,
              pre="::new(d) SP<%s>();" % T, check=both(*ch), handed=[("p", 7, u)], keeps=("d",), props=pr)
    S("rdreset_al_old", [d("A"), ("ext", "p", "A")], "static_cast<SP<A>*>(d)->reset(&p, IdDel<A>(7), IdAlloc<char>(9));", "kill<SP<A>>(d);",
      pre="::new(d) SP<A>(MAKE<A>());", keeps=("d",), handed=[("p", 7, "A")],
      check=lambda k: k.kind == "ret" and (taken("p", "A", "A")(k), drop_old(k)), old=True, props=("C21", "C17", "C11"))
    # a deleter for any type gets the pointer with the type it was handed over with
    for u, T in [("A", "A"), ("D", "B2"), ("A", "void"), ("ND", "N2"), ("A", "const A"), ("EFD", "EF")]:
        S("rdg_%s_%s" % (u, mang(T)), [d(T), ("ext", "p", u)], "::new(d) SP<%s>(std::addressof(p), GDel(7));" % T, "kill<SP<%s>>(d);" % T, "",
          check=taken("p", u, T), handed=[("p", 7, u)], props=("C17", "C11"))
        S("rdgreset_%s_%s" % (u, mang(T)), [d(T), ("ext", "p", u)], "static_cast<SP<%s>*>(d)->reset(std::addressof(p), GDel(7));" % T, "kill<SP<%s>>(d);" % T,
          pre="::new(d) SP<%s>();" % T, check=taken("p", u, T), handed=[("p", 7, u)], keeps=("d",), props=("C17", "C11"))
        S("uqg_%s_%s" % (u, mang(T)), [d(T), ("raw", "u", "xmem::unique_ptr<%s,GDel>" % u), ("ext", "p", u)],
          "::new(d) SP<%s>(std::move(*static_cast<xmem::unique_ptr<%s,GDel>*>(u)));" % (T, u), "kill<SP<%s>>(d); kill<xmem::unique_ptr<%s,GDel>>(u);" % (T, u),
          "kill<xmem::unique_ptr<%s,GDel>>(u);" % u, "::new(u) xmem::unique_ptr<%s,GDel>(std::addressof(p), GDel(7));" % u,
          check=taken("p", u, T, src="u"), handed=[("p", 7, u)], keeps=("u",), props=("C17", "C19", "C11"))
    # a shared count: copies keep the object alive, the last one deletes it with the right deleter and type
    S("rd_copies", [d("A"), ("raw", "e", "SP<void>"), ("raw", "w", "WP<const A>"), ("ext", "p", "A")],
      "::new(d) SP<A>(&p, IdDel<A>(7)); ::new(e) SP<void>(*static_cast<SP<A>*>(d)); ::new(w) WP<const A>(*static_cast<SP<A>*>(d));",
      "kill<SP<A>>(d); ev_mark(1); kill<SP<void>>(e); ev_mark(2); kill<WP<const A>>(w);", "", handed=[("p", 7, "A")],
      check=lambda k: k.kind == "ret" and taken("p", "A", "A", count=2)(k), props=("C17", "C11"))

    # ---- unique pointers
    UQ = [("dd", "A", "xmem::unique_ptr<A>", "new", None, "", None),
          ("dD", "D", "xmem::unique_ptr<D>", "new", None, "", None),
          ("id", "A", "xmem::unique_ptr<A,IdDel<A>>", "ext", ", IdDel<A>(7)", "", 7),
          ("idD", "D", "xmem::unique_ptr<D,IdDel<D>>", "ext", ", IdDel<D>(7)", "", 7),
          ("md", "A", "xmem::unique_ptr<A,MDel<A>>", "ext", ", MDel<A>(6)", "", 6),
          ("ed", "A", "xmem::unique_ptr<A,EDel<A>>", "ext", ", EDel<A>()", "", 77),
          ("rf", "A", "xmem::unique_ptr<A,MDel<A>&>", "ext", ", r", "MDel<A>", 55),
          ("cr", "A", "xmem::unique_ptr<A,const IdDel<A>&>", "ext", ", r", "const IdDel<A>", 56),
          ("fn", "A", "xmem::unique_ptr<A,void(*)(A*)>", "ext", ", &fdel3", "", 3),
          ("fv", "A", "xmem::unique_ptr<A,void(*)(void*)>", "ext", ", &fdel4", "", 4),
          ("bd", "A", "xmem::unique_ptr<A,BDel<A>>", "ext", ", BDel<A>(8)", "", 8),
          ("tdt", "Tdt", "xmem::unique_ptr<Tdt>", "new", None, "", None),
          ("big", "Big", "xmem::unique_ptr<Big,EDel<Big>>", "ext", ", EDel<Big>()", "", 77),
          ("fin", "Fin", "xmem::unique_ptr<Fin>", "new", None, "", None),
          ("efn", "EFN", "xmem::unique_ptr<EFN>", "new", None, "", None),
          ("efb", "EFB", "xmem::unique_ptr<EFB>", "new", None, "", None),
          ("ef", "EF", "xmem::unique_ptr<EF,IdDel<EF>>", "ext", ", IdDel<EF>(7)", "", 7),
          ("eft", "EFT", "xmem::unique_ptr<EFT,IdDel<EFT>>", "ext", ", IdDel<EFT>(7)", "", 7)]
    for nm, u, ut, pk, da, rt, did in UQ:
        Ts = {"A": ["A", "void", "const A"], "D": ["D", "B2"], "EF": ["EF", "void"], "EFT": ["EFT"], "EFN": ["EFN", "void"], "EFB": ["EFB", "EFT"]}.get(u, [u])
        for T in Ts:
            for null in (False, True):
                ps = [d(T), ("raw", "u", ut), ("null" if null else pk, "p", u)]
                ints = {}
                if rt:
                    ps.append(("ref", "r", rt))
                    ints["r"] = did
                pe = "std::addressof(p)" if pk == "ext" and not null else "p"
                build_u = "::new(u) %s(%s%s);" % (ut, pe, da or "")
                ku = "{ auto q = static_cast<%s*>(u); using UT = %s; q->~UT(); }" % (ut, ut)
                ks = "kill<SP<%s>>(d);" % T
                hd = [("p", did, "void" if nm == "fv" else u)] if pk == "ext" and not null else []
                ch = [taken("p", u, T, src="u")]
                pr = ("C17", "C19", "C11")
                if u.startswith("EF"):
                    pr += ("C16",)
                    if not null:
                        ch.append(lambda k, u=u: k.kind == "ret" and gives_out(k, u, k.env["p"], "d"))
                if rt:
                    ch.append(ref_unmodified)
                n = "%s_%s%s" % (nm, mang(T), "_null" if null else "")
                S("uq_" + n, ps, "::new(d) SP<%s>(std::move(*static_cast<%s*>(u)));" % (T, ut), ks + ku, ku, build_u, check=both(*ch), handed=hd, keeps=("u",), ints=ints, props=pr)
                S("uqa_" + n, ps, "*static_cast<SP<%s>*>(d) = std::move(*static_cast<%s*>(u));" % (T, ut), ks + ku, ks + ku, build_u + "::new(d) SP<%s>();" % T,
                  check=both(*ch), handed=hd, keeps=("u", "d"), ints=ints, props=pr)
                if T == "A" and not null:
                    S("uqo_" + n, ps, "*static_cast<SP<%s>*>(d) = std::move(*static_cast<%s*>(u));" % (T, ut), ks + ku, ks + ku, build_u + "::new(d) SP<%s>(MAKE<A>());" % T,
                      check=both(lambda k: k.kind == "ret" and drop_old(k), *ch), handed=hd, keeps=("u", "d"), ints=ints, old=True, props=pr)
    # arrays
    for nm, T, ut, n in [("A", "A[]", "xmem::unique_ptr<A[]>", 1), ("A3", "A[]", "xmem::unique_ptr<A[]>", 3), ("A2c", "const A[]", "xmem::unique_ptr<A[]>", 2), ("A2v", "void", "xmem::unique_ptr<A[]>", 2)]:
        ku = "kill<%s>(u);" % ut
        ks = "kill<SP<%s>>(d);" % T
        ps = [d(T), ("raw", "u", ut), ("newarr", "p", "A")]
        bu = "::new(u) %s(p);" % ut
        E = T.replace("[]", "")
        S("uqarr_" + nm, ps, "::new(d) SP<%s>(std::move(*static_cast<%s*>(u)));" % (T, ut), ks + ku, ku, bu, check=taken("p", "A", E, src="u"), keeps=("u",), ints={"p": n}, props=("C17", "C19", "C11", "C21"))
        S("uqarra_" + nm, ps, "*static_cast<SP<%s>*>(d) = std::move(*static_cast<%s*>(u));" % (T, ut), ks + ku, ks + ku, bu + "::new(d) SP<%s>();" % T,
          check=taken("p", "A", E, src="u"), keeps=("u", "d"), ints={"p": n}, props=("C17", "C19", "C11", "C21"))
    for nm, T, ex in [("id", "A[]", 7), ("idc", "const A[]", 7)]:
        ut = "xmem::unique_ptr<A[],IdDel<A>>"
        S("uqarr_" + nm, [d(T), ("raw", "u", ut), ("ext", "p", "A")], "::new(d) SP<%s>(std::move(*static_cast<%s*>(u)));" % (T, ut), "kill<SP<%s>>(d); kill<%s>(u);" % (T, ut), "kill<%s>(u);" % ut,
          "::new(u) %s(&p, IdDel<A>(7));" % ut, check=taken("p", "A", T.replace("[]", ""), src="u"), keeps=("u",), handed=[("p", 7, "A")], props=("C17", "C19", "C11"))
    # const objects give out their owner as well
    for u in ("EF", "EFT", "EFD"):
        own = lambda k, u=u: k.kind == "ret" and gives_out(k, u, k.env["p"], "d")
        S("rd_cobj_" + u, [d("const " + u), ("ext", "p", u)], "::new(d) SP<const {0}>(std::addressof(static_cast<const {0}&>(p)), IdDel<const {0}>(7));".format(u), "kill<SP<const %s>>(d);" % u, "",
          check=both(taken("p", u, "const " + u), own), handed=[("p", 7, u)], props=("C16", "C17", "C11"))
        ut = "xmem::unique_ptr<const %s,IdDel<const %s>>" % (u, u)
        S("uq_cobj_" + u, [d("const " + u), ("raw", "u", ut), ("ext", "p", u)], "::new(d) SP<const %s>(std::move(*static_cast<%s*>(u)));" % (u, ut), "kill<SP<const %s>>(d); kill<%s>(u);" % (u, ut), "kill<%s>(u);" % ut,
          "::new(u) %s(std::addressof(p), IdDel<const %s>(7));" % (ut, u), check=both(taken("p", u, "const " + u, src="u"), own), keeps=("u",), handed=[("p", 7, u)], props=("C16", "C17", "C11", "C19"))
    # shared-from through several owners in turn: copies of the object never take the reference along
    for O in ("EF", "EFT"):
        for op, code in [("copy", "::new(d) SP<%s>(MAKE<%s>(a));" % (O, O))]:
            S("sfc_%s_%s" % (op, O), [d(O), ("raw", "e", "SP<%s>" % O)], "::new(d) SP<%s>(MAKE<%s>(static_cast<const %s&>(**static_cast<SP<%s>*>(e))));" % (O, O, O, O),
              "kill<SP<%s>>(d); kill<SP<%s>>(e);" % (O, O), "kill<SP<%s>>(e);" % O, "::new(e) SP<%s>(MAKE<%s>());" % (O, O),
              check=lambda k, O=O: k.kind == "ret" and (made(O, O, "copy")(k), gives_out(k, O, ptr_of(k, "d", "SP<%s>" % O), "d"), gives_out(k, O, ptr_of(k, "e", "SP<%s>" % O), "e")),
              props=("C16",))
        S("sfa_" + O, [d(O), ("raw", "e", "SP<%s>" % O), ("ref", "o", O)],
          "**static_cast<SP<{0}>*>(d) = static_cast<const {0}&>(**static_cast<SP<{0}>*>(e)); o = **static_cast<SP<{0}>*>(e);".format(O),
          "kill<SP<%s>>(d); kill<SP<%s>>(e);" % (O, O), None, "::new(e) SP<{0}>(MAKE<{0}>()); ::new(d) SP<{0}>(MAKE<{0}>());".format(O),
          check=lambda k, O=O: (gives_out(k, O, ptr_of(k, "d", "SP<%s>" % O), "d"), gives_out(k, O, ptr_of(k, "e", "SP<%s>" % O), "e"), gives_out(k, O, k.env["o"], None)),
          props=("C16",))
        # copying an unowned object over an owned one
        S("sfu_" + O, [d(O), ("ref", "o", O)], "**static_cast<SP<{0}>*>(d) = static_cast<const {0}&>(o);".format(O), "kill<SP<%s>>(d);" % O, None, "::new(d) SP<{0}>(MAKE<{0}>());".format(O),
          check=lambda k, O=O: (gives_out(k, O, ptr_of(k, "d", "SP<%s>" % O), "d"), gives_out(k, O, k.env["o"], None)), props=("C16",))
        # an object made as a copy of an owned one has no owner of its own
        S("sfp_" + O, [d(O), ("raw", "o", O)], "::new(o) {0}(static_cast<const {0}&>(**static_cast<SP<{0}>*>(d)));".format(O), "kill<{0}>(o); kill<SP<{0}>>(d);".format(O),
          "kill<SP<%s>>(d);" % O, "::new(d) SP<{0}>(MAKE<{0}>());".format(O),
          check=lambda k, O=O: k.kind == "ret" and (k.ob("C16"), gives_out(k, O, ptr_of(k, "d", "SP<%s>" % O), "d"), gives_out(k, O, k.env["o"], None)), props=("C16",))
    # an object which outlives its owner
    S("sf_outlive", [("raw", "d", "SP<EF>"), ("raw", "e", "SP<void>"), ("ext", "p", "EF")],
      "kill<SP<EF>>(d); ::new(e) SP<void>(p.shared_from_this());", "kill<SP<void>>(e);", None, "::new(d) SP<EF>(&p, IdDel<EF>(7));",
      check=lambda k: (k.ob("C16"), k.kind == "ret" and outlive(k)), props=("C16",), key="C16:outlives-owner", obj_props=("C16",), mem_props=("C16",), handed=[("p", 7, "EF")])
    return L


def outlive(k):
    c = k.cells("e")
    if any(k.st.const(v) != 0 for o, (z, v) in c.items()):
        k.f(("C16",), "shared-from of an object without a living owner is not empty")


def ref_unmodified(k):
    k.ob("C19")
    for e in k.main_tr:
        if e[0] in ("dmove", "dassign") and k.env["r"] in e[1:-1] and (e[0] != "dassign" or e[1] == k.env["r"] or e[3] == 1):
            k.f(("C19",), "a deleter which is held by reference is modified", e[-1])
    if k.st.mem[k.env["r"][1]].cells.get(0, (8, None))[1] != k.scn.ints["r"]:
        k.f(("C19",), "a deleter which is held by reference is modified")


def sources(L):
    s = SRC + helper_source(L)
    seen = set()
    for c in L:
        for kind, v, t in c.params:
            if kind == "raw" and t.startswith("xmem::unique_ptr") and t not in seen:
                seen.add(t)
                s += "W const void* gu_%s(%s& u) { return u.get(); }\n" % (mang(t), t)
    return s + "".join(c.source() for c in L)


@suite("create")
class Create:
    def __init__(self, prop, tier, pre, fam, config="17", only=None):
        self.scns = scenarios()
        self.fam, self.config = fam, config
        self.m = build.module("c" + fam, sources(self.scns), ["-DFAM_" + fam], config)
        self.r = Runner(self.m, fam)
        pre.functions.update(funcs(self.r.functions))
        self.prop = prop

    def items(self):
        return [s for s in self.scns]

    def cost(self, s):
        return 1 + len(s.main) / 50

    def label(self, s):
        return "%s family=%s config=%s" % (s.name, self.fam, self.config)

    def run(self, s, r):
        h = self.r
        h.functions = {}
        h.stats = {k: 0 for k in h.stats}
        f, obl, cases = h.run(s)
        r.findings += f
        r.obl += obl
        r.cases += cases
        r.stats.update(h.stats)
        r.functions.update(funcs(h.functions))
