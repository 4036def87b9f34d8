"""Suite: type-level witnesses.

Obligations decided by the compiler's front end alone:
  hold    a constant expression which must be true
  legal   a program which must compile
  illegal a program which must not compile, next to its closest legal relative, which must
"""
import atexit
import os
import shutil
import re
import subprocess
import tempfile

from . import build
from .handles import Finding
from .ir import AnalysisError
from .runner import suite

PRE = r'''
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <algorithm>
#include <optional>
#include <variant>
#include <tuple>
#include <memory>
#include <type_traits>
#include <utility>
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/basic_shared_from.hpp>
#include <xmem/unique_ptr.hpp>
#include <xmem/allocator.hpp>
#include <xmem/std_helpers.hpp>
#include <xmem/ostream.hpp>
struct A { int x; };
struct Un { int u; };
struct B1 { virtual ~B1(); int b1; };
struct B2 { virtual ~B2(); int b2; };
struct D : B1, B2 { int d; };
struct PD : private A {};
struct V { int v; virtual ~V(); };
struct VD : virtual V { int vd; };
struct Incomplete;
struct alignas(128) Big { char c[1024]; };
struct Em {};
template <typename T> struct Del { void operator()(T*) const noexcept; };       // empty
template <typename T> struct Del2 { void operator()(T*) const noexcept; };      // empty
template <typename T> struct MutDel { void operator()(T*) noexcept; };          // empty
template <typename T> struct Al1 { using value_type = T; Al1(); template <typename U> Al1(const Al1<U>&) noexcept; T* allocate(size_t); void deallocate(T*, size_t) noexcept; };
template <typename T, typename Tag> struct Al2 { using value_type = T; Al2(); template <typename U> Al2(const Al2<U, Tag>&) noexcept; T* allocate(size_t); void deallocate(T*, size_t) noexcept; };
template <typename T, int N> struct AlN { using value_type = T; template <typename U> struct rebind { using other = AlN<U, N>; }; AlN(); template <typename U> AlN(const AlN<U, N>&) noexcept; T* allocate(size_t); void deallocate(T*, size_t) noexcept; };
struct AlO { using value_type = char; template <typename U> struct rebind { using other = std::conditional_t<std::is_same_v<U, char>, AlO, AlN<U, 1>>; }; AlO(); template <typename U> operator AlN<U, 1>() const noexcept; char* allocate(size_t); void deallocate(char*, size_t) noexcept; };
template <typename T> struct StDel { long id; void operator()(T*) const noexcept; };  // state
template <typename T> struct tcb_ : xmem::control_block_base<T> {};             // another control block
struct L {
    using CBF = xmem::local_control_block_factory;
    template <typename T> using SP = xmem::local_shared_ptr<T>;
    template <typename T> using WP = xmem::local_weak_ptr<T>;
    template <typename T> using ST = xmem::basic_atomic_shared_ptr_storage<CBF, T>;
    using ESF = xmem::enable_local_shared_from;
    template <typename T> using ESFT = xmem::enable_local_shared_from_this<T>;
};
struct M {
    using CBF = xmem::atomic_control_block_factory;
    template <typename T> using SP = xmem::shared_ptr<T>;
    template <typename T> using WP = xmem::weak_ptr<T>;
    template <typename T> using ST = xmem::atomic_shared_ptr_storage<T>;
    using ESF = xmem::enable_shared_from;
    template <typename T> using ESFT = xmem::enable_shared_from_this<T>;
};
struct C {
    using CBF = xmem::control_block_factory<tcb_<xmem::local_ref_count>>;
    template <typename T> using SP = xmem::basic_shared_ptr<CBF, T>;
    template <typename T> using WP = xmem::basic_weak_ptr<CBF, T>;
    template <typename T> using ST = xmem::basic_atomic_shared_ptr_storage<CBF, T>;
    using ESF = xmem::basic_enable_shared_from<CBF>;
    template <typename T> using ESFT = xmem::basic_enable_shared_from_this<CBF, T>;
};
template <typename T> using UP = xmem::unique_ptr<T>;
template <typename T, typename DD> using UD = xmem::unique_ptr<T, DD>;
template <typename T> T&& val() noexcept;
template <typename T> T& ref() noexcept;
template <typename T> void use(const T&);
template <typename T> void take(T);
template <typename X, typename Y> constexpr bool same = std::is_same_v<X, Y>;
template <typename T> constexpr size_t szof = sizeof(T);
'''


class Ob:
    def __init__(self, prop, kind, name, code, control=None, scope=None, why=""):
        self.prop, self.kind, self.name, self.code, self.control, self.scope, self.why = prop, kind, name, code, control, scope, why


def prog(code, scope, n):
    """One function; scope: the family whose members are visible."""
    u = ""
    if scope:
        u = "".join("template <typename T> using %s = %s::%s<T>; " % (x, scope, x) for x in ("SP", "WP", "ST", "ESFT")) + "using ESF = %s::ESF; using CBF = %s::CBF;" % (scope, scope)
    return "namespace n%d { %s %s }" % (n, u, code if code.lstrip().startswith("@") is False else code.lstrip()[1:])


def fn(code):
    return "void f() { %s }" % code


def gen():
    out = []

    def hold(prop, name, expr, scope=None, why=""):
        out.append(Ob(prop, "hold", name, "static_assert(%s);" % expr, None, scope, why))

    def legal(prop, name, code, scope=None, top=False, why=""):
        out.append(Ob(prop, "legal", name, code if top else fn(code), None, scope, why))

    def illegal(prop, name, bad, good, scope=None, top=False, why=""):
        out.append(Ob(prop, "illegal", name, bad if top else fn(bad), good if top else fn(good), scope, why))

    # conversions which must not exist: (name, from, to), with a legal relative (from, to)
    bad_conv = [("base_to_derived", "B1", "D", "D", "B1"), ("base2_to_derived", "B2", "D", "D", "B2"), ("const_to_mutable", "const A", "A", "A", "const A"),
                ("unrelated", "A", "Un", "A", "A"), ("sibling", "B1", "B2", "D", "B2"), ("void_to_object", "void", "A", "A", "void"),
                ("private_base", "PD", "A", "A", "A"), ("virtual_base_to_derived", "V", "VD", "VD", "V"),
                ("const_derived_to_base", "const D", "B1", "const D", "const B1"), ("volatile_to_plain", "volatile A", "A", "A", "volatile A")]
    forms = [("construct", "%(X)s s(ref<%(Y)s>()); use(s);"), ("construct_move", "%(X)s s(val<%(Y)s>()); use(s);"),
             ("implicit", "take<%(X)s>(val<%(Y)s>());"), ("assign", "ref<%(X)s>() = ref<%(Y)s>();"), ("assign_move", "ref<%(X)s>() = val<%(Y)s>();")]
    for sc in "LMC":
        # raw pointers
        for T, P_ in (("A", "A"), ("B1", "D"), ("const A", "A"), ("void", "A")):
            illegal("C27", "raw pointer to shared pointer, implicit (%s from %s)" % (T, P_), "A* q; %s* p = new %s; SP<%s> s = p; use(s);" % (P_, P_, T), "%s* p = new %s; SP<%s> s(p); use(s);" % (P_, P_, T), sc)
            illegal("C27", "raw pointer to shared pointer, argument (%s from %s)" % (T, P_), "take<SP<%s>>(new %s);" % (T, P_), "take(SP<%s>(new %s));" % (T, P_), sc)
            illegal("C27", "raw pointer assigned to shared pointer (%s from %s)" % (T, P_), "ref<SP<%s>>() = new %s;" % (T, P_), "ref<SP<%s>>().reset(new %s);" % (T, P_), sc)
        illegal("C27", "raw pointer returned as shared pointer", "SP<A> f(A* p) { return p; }", "SP<A> f(A* p) { return SP<A>(p); }", sc, top=True)
        illegal("C27", "raw pointer to shared pointer, braces", "take<SP<A>>({new A});", "take<SP<A>>({});", sc)
        illegal("C27", "raw pointer to weak pointer", "A* p = new A; WP<A> w(p); use(w);", "SP<A> p(new A); WP<A> w(p); use(w);", sc)
        illegal("C27", "raw pointer assigned to weak pointer", "ref<WP<A>>() = new A;", "ref<WP<A>>() = SP<A>(new A);", sc)
        illegal("C27", "raw pointer to atomic storage, implicit", "take<const ST<A>&>(new A);", "take<const ST<A>&>(SP<A>(new A));", sc)
        illegal("C27", "raw pointer stored in atomic storage", "ref<ST<A>>().store(new A);", "ref<ST<A>>().store(SP<A>(new A));", sc)
        illegal("C27", "raw pointer exchanged into atomic storage", "use(ref<ST<A>>().exchange(new A));", "use(ref<ST<A>>().exchange(SP<A>(new A)));", sc)
        illegal("C27", "raw pointer in compare_exchange", "use(ref<ST<A>>().compare_exchange(ref<SP<A>>(), new A));", "use(ref<ST<A>>().compare_exchange(ref<SP<A>>(), SP<A>(new A)));", sc)
        for nm, P_, T, P2, T2 in bad_conv:
            if T != "Un":
                illegal("C27", "raw pointer of the wrong type to shared pointer, %s" % nm, "%s* p = nullptr; SP<%s> s(p); use(s);" % (P_, T), "%s* p = nullptr; SP<%s> s(p); use(s);" % (P2 if P2 != "void" else "A", T2), sc)
            # aliases
            illegal("C27", "aliasing pointer, %s" % nm, "%s* p = nullptr; SP<%s> s(ref<SP<int>>(), p); use(s);" % (P_, T), "%s* p = nullptr; SP<%s> s(ref<SP<int>>(), p); use(s);" % (P2, T2), sc)
            illegal("C27", "aliasing weak pointer, %s" % nm, "%s* p = nullptr; WP<%s> s(ref<WP<int>>(), p); use(s);" % (P_, T), "%s* p = nullptr; WP<%s> s(ref<WP<int>>(), p); use(s);" % (P2, T2), sc)
            for fname, f in forms:
                for tn, X, Y in (("shared", "SP", "SP"), ("weak", "WP", "WP"), ("shared_to_weak", "WP", "SP")):
                    illegal("C27", "%s conversion, %s, %s" % (tn, nm, fname), f % {"X": "%s<%s>" % (X, T), "Y": "%s<%s>" % (Y, P_)},
                            f % {"X": "%s<%s>" % (X, T2), "Y": "%s<%s>" % (Y, P2)}, sc)
            for fname, f in forms:
                if "move" in fname or fname == "implicit":
                    illegal("C27", "unique to shared conversion, %s, %s" % (nm, fname), f % {"X": "SP<%s>" % T, "Y": "UD<%s, Del<%s>>" % (P_, P_)},
                            f % {"X": "SP<%s>" % T2, "Y": "UD<%s, Del<%s>>" % (P2, P2)}, sc)
            illegal("C27", "storing a pointer of the wrong type, %s" % nm, "ref<ST<%s>>().store(ref<SP<%s>>());" % (T, P_), "ref<ST<%s>>().store(ref<SP<%s>>());" % (T2, P2), sc)
            illegal("C27", "loading as the wrong type, %s" % nm, "SP<%s> s = ref<ST<%s>>().load(); use(s);" % (T, P_), "SP<%s> s = ref<ST<%s>>().load(); use(s);" % (T2, P2), sc)
        # weak to shared
        for T, P_ in (("A", "A"), ("B1", "D"), ("const A", "A")):
            for fname, f in forms:
                illegal("C27", "weak pointer to shared pointer, %s (%s from %s)" % (fname, T, P_), f % {"X": "SP<%s>" % T, "Y": "WP<%s>" % P_}, "take<SP<%s>>(ref<WP<%s>>().lock());" % (T, P_), sc)
        illegal("C27", "weak pointer stored in atomic storage", "ref<ST<A>>().store(ref<WP<A>>());", "ref<ST<A>>().store(ref<WP<A>>().lock());", sc)
        illegal("C27", "atomic storage from a weak pointer", "ST<A> s(ref<WP<A>>()); use(s);", "ST<A> s(ref<WP<A>>().lock()); use(s);", sc)
        illegal("C27", "weak pointer from a unique pointer", "WP<A> s(val<UP<A>>()); use(s);", "SP<A> s(val<UP<A>>()); use(s);", sc)
        # uses of unique pointers
        illegal("C27", "unique pointer lvalue to shared pointer", "SP<A> s(ref<UP<A>>()); use(s);", "SP<A> s(val<UP<A>>()); use(s);", sc)
        illegal("C27", "const unique pointer to shared pointer", "SP<A> s(val<const UP<A>>()); use(s);", "SP<A> s(val<UP<A>>()); use(s);", sc)
        illegal("C27", "unique pointer lvalue assigned to shared pointer", "ref<SP<A>>() = ref<UP<A>>();", "ref<SP<A>>() = val<UP<A>>();", sc)
        for dd in ("Del<A>", "Del<A>&", "void(*)(A*)"):
            illegal("C27", "unique pointer lvalue to shared pointer (deleter %s)" % dd, "SP<A> s(ref<UD<A, %s>>()); use(s);" % dd, "SP<A> s(val<UD<A, %s>>()); use(s);" % dd, sc)
            illegal("C27", "unique pointer lvalue assigned to shared pointer (deleter %s)" % dd, "ref<SP<A>>() = ref<UD<A, %s>>();" % dd, "ref<SP<A>>() = val<UD<A, %s>>();" % dd, sc)
        illegal("C27", "shared pointer to unique pointer", "UP<A> u(val<SP<A>>()); use(u);", "SP<A> u(val<UP<A>>()); use(u);", sc)
        illegal("C27", "shared pointer assigned to unique pointer", "ref<UP<A>>() = val<SP<A>>();", "ref<SP<A>>() = val<UP<A>>();", sc)
        # pointers are no raw pointers, booleans or numbers
        for X in ("SP", "WP"):
            illegal("C27", "%s converts to bool implicitly" % X, "bool b = ref<%s<A>>(); use(b);" % X, "bool b(ref<%s<A>>()); use(b);" % X, sc)
            illegal("C27", "%s converts to int" % X, "int b = ref<%s<A>>(); use(b);" % X, "if (ref<%s<A>>()) use(1);" % X, sc)
            illegal("C27", "%s converts to a raw pointer" % X, "A* b = ref<%s<A>>(); use(b);" % X, "A* b = ref<%s<A>>()%s.get(); use(b);" % (X, ".lock()" if X == "WP" else ""), sc)
            illegal("C27", "%s can be deleted" % X, "delete ref<%s<A>>();" % X, "ref<%s<A>>().reset();" % X, sc)
        illegal("C27", "weak pointer is dereferenced", "use(*ref<WP<A>>());", "use(*ref<WP<A>>().lock());", sc)
        illegal("C27", "weak pointer member access", "use(ref<WP<A>>()->x);", "use(ref<WP<A>>().lock()->x);", sc)
        illegal("C27", "dereferencing a shared pointer to void", "use(*ref<SP<void>>());", "use(*ref<SP<A>>());", sc)
        for X in ("SP", "WP"):
            for nm, b in (("assign", "ref<const %s<A>>() = ref<%s<A>>();"), ("reset", "ref<const %s<A>>().reset();"), ("swap", "ref<const %s<A>>().swap(ref<%s<A>>());")):
                bb = b % ((X,) * b.count("%s"))
                illegal("C27", "%s on a const %s" % (nm, X), bb, bb.replace("const ", ""), sc)
            illegal("C27", "swap with a const %s" % X, "ref<%s<A>>().swap(ref<const %s<A>>());" % (X, X), "ref<%s<A>>().swap(ref<%s<A>>());" % (X, X), sc)
            illegal("C27", "swap of %s of different types" % X, "ref<%s<B1>>().swap(ref<%s<D>>());" % (X, X), "ref<%s<B1>>().swap(ref<%s<B1>>());" % (X, X), sc)
        # storage
        for nm, b, g in (("copied", "ST<A> s(ref<ST<A>>()); use(s);", "ST<A> s(ref<SP<A>>()); use(s);"), ("copied (const)", "ST<A> s(ref<const ST<A>>()); use(s);", "ST<A> s(ref<const SP<A>>()); use(s);"),
                         ("moved", "ST<A> s(val<ST<A>>()); use(s);", "ST<A> s(val<SP<A>>()); use(s);"), ("copy-assigned", "ref<ST<A>>() = ref<const ST<A>>();", "ref<ST<A>>().store(ref<const ST<A>>().load());"),
                         ("move-assigned", "ref<ST<A>>() = val<ST<A>>();", "ref<ST<A>>().store(val<ST<A>>().load());"), ("stored through const", "ref<const ST<A>>().store(ref<SP<A>>());", "ref<ST<A>>().store(ref<SP<A>>());"),
                         ("exchanged through const", "use(ref<const ST<A>>().exchange(ref<SP<A>>()));", "use(ref<ST<A>>().exchange(ref<SP<A>>()));"),
                         ("compare-exchanged through const", "use(ref<const ST<A>>().compare_exchange(ref<SP<A>>(), ref<SP<A>>()));", "use(ref<ST<A>>().compare_exchange(ref<SP<A>>(), ref<SP<A>>()));"),
                         ("compared with a const expectation", "use(ref<ST<A>>().compare_exchange(ref<const SP<A>>(), ref<SP<A>>()));", "use(ref<ST<A>>().compare_exchange(ref<SP<A>>(), ref<SP<A>>()));"),
                         ("passed by value", "void g(ST<A>); void f() { g(ref<ST<A>>()); }", "void g(ST<A>&); void f() { g(ref<ST<A>>()); }")):
            illegal("C27", "atomic storage %s" % nm, b, g, sc, top=nm == "passed by value")
        hold("C27", "atomic storage is not copyable or movable", "!std::is_copy_constructible_v<ST<A>> && !std::is_move_constructible_v<ST<A>> && !std::is_copy_assignable_v<ST<A>> && !std::is_move_assignable_v<ST<A>>", sc)
        # shared-from of const objects
        for base, val_ in (("ESF", "void"), ("ESFT<O>", "O")):
            o = "struct O : %s { using base = %s; int x; void m() { %s } void c() const { %s } }; void f() { ref<O>().m(); ref<O>().c(); }"
            illegal("C27", "shared_from_this of a const object is mutable (%s)" % base, o % (base, base, "", "SP<%s> s = this->shared_from_this(); use(s);" % val_), o % (base, base, "SP<%s> s = this->shared_from_this(); use(s);" % val_, "SP<const %s> s = this->shared_from_this(); use(s);" % val_), sc, top=True)
            illegal("C27", "weak_from_this of a const object is mutable (%s)" % base, o % (base, base, "", "WP<%s> s = this->weak_from_this(); use(s);" % val_), o % (base, base, "WP<%s> s = this->weak_from_this(); use(s);" % val_, "WP<const %s> s = this->weak_from_this(); use(s);" % val_), sc, top=True)
            illegal("C27", "shared_from of a const member is mutable (%s)" % base, o % (base, base, "", "SP<int> s = this->shared_from(&this->x); use(s);"), o % (base, base, "SP<int> s = this->shared_from(&this->x); use(s);", "SP<const int> s = this->shared_from(&this->x); use(s);"), sc, top=True)
            illegal("C27", "weak_from of a const member is mutable (%s)" % base, o % (base, base, "", "WP<int> s = this->weak_from(&this->x); use(s);"), o % (base, base, "WP<int> s = this->weak_from(&this->x); use(s);", "WP<const int> s = this->weak_from(&this->x); use(s);"), sc, top=True)
        # casts
        illegal("C27", "static cast which drops const", "use(xmem::static_pointer_cast<A>(ref<SP<const A>>()));", "use(xmem::const_pointer_cast<A>(ref<SP<const A>>()));", sc)
        illegal("C27", "static cast between unrelated types", "use(xmem::static_pointer_cast<Un>(ref<SP<A>>()));", "use(xmem::reinterpret_pointer_cast<Un>(ref<SP<A>>()));", sc)
        illegal("C27", "static cast from a virtual base", "use(xmem::static_pointer_cast<VD>(ref<SP<V>>()));", "use(xmem::dynamic_pointer_cast<VD>(ref<SP<V>>()));", sc)
        illegal("C27", "dynamic cast of a class without virtual functions", "use(xmem::dynamic_pointer_cast<Un>(ref<SP<A>>()));", "use(xmem::reinterpret_pointer_cast<Un>(ref<SP<A>>()));", sc)
        illegal("C27", "dynamic cast which drops const", "use(xmem::dynamic_pointer_cast<D>(ref<SP<const B1>>()));", "use(xmem::dynamic_pointer_cast<const D>(ref<SP<const B1>>()));", sc)
        illegal("C27", "reinterpret cast which drops const", "use(xmem::reinterpret_pointer_cast<Un>(ref<SP<const A>>()));", "use(xmem::reinterpret_pointer_cast<const Un>(ref<SP<const A>>()));", sc)
        illegal("C27", "const cast to another type", "use(xmem::const_pointer_cast<Un>(ref<SP<const A>>()));", "use(xmem::const_pointer_cast<A>(ref<SP<const A>>()));", sc)
        illegal("C27", "pointer cast of a weak pointer", "use(xmem::static_pointer_cast<D>(ref<WP<B1>>()));", "use(xmem::static_pointer_cast<D>(ref<WP<B1>>().lock()));", sc)
        # legal programs
        for P_, T in (("D", "B1"), ("D", "B2"), ("A", "const A"), ("D", "const B2"), ("A", "void"), ("const A", "const void"), ("VD", "V"), ("A", "A"), ("A[]", "A[]"), ("A[]", "const A[]")):
            for fname, f in forms:
                for X, Y in (("SP", "SP"), ("WP", "WP"), ("WP", "SP")):
                    legal("C27", "%s<%s> from %s<%s>, %s" % (X, T, Y, P_, fname), f % {"X": "%s<%s>" % (X, T), "Y": "%s<%s>" % (Y, P_)}, sc)
                if "[]" not in P_ and ("move" in fname or fname == "implicit"):
                    legal("C27", "SP<%s> from unique_ptr<%s>, %s" % (T, P_, fname), f % {"X": "SP<%s>" % T, "Y": "UP<%s>" % P_}, sc)
        legal("C27", "empty pointers", "SP<A> a; SP<A> b(nullptr); SP<A> c = nullptr; a = nullptr; a = {}; a.reset(); a.reset(nullptr); WP<A> w; w = {}; w.reset(); UP<A> u; UP<A> v = nullptr; u = nullptr; u = {}; ST<A> s; ST<A> t(nullptr); s.store(nullptr); s.store({}); use(s.exchange(nullptr)); use(a); use(b); use(c); use(w); use(t);", sc)
        legal("C27", "containers", "std::vector<SP<A>> v; v.push_back({}); v.push_back(SP<A>(new A)); v.resize(9); v.erase(v.begin()); std::vector<WP<A>> w(v.begin(), v.end()); w.resize(9); auto w2 = w; auto v2 = v; use(w2); use(v2); std::vector<UP<A>> u; u.resize(9); u.emplace_back(new A); u.erase(u.begin());", sc)
        legal("C27", "deleters", "SP<A> a(new A, Del<A>()); SP<A> b(new A, [](A*) noexcept {}); SP<B1> c(new D, StDel<B1>{3}); SP<void> d(new A, Del<A>()); a.reset(new A, Del<A>()); a.reset(new A); SP<A> e(nullptr, Del<A>()); void (*fp)(A*) = nullptr; SP<A> g(new A, fp); SP<A> h(val<UD<A, Del<A>&>>()); h = val<UD<A, void(*)(A*)>>(); use(b); use(c); use(d); use(e); use(g);", sc)
        hold("C27", "element types", "same<SP<A>::element_type, A> && same<SP<A[]>::element_type, A> && same<WP<A[]>::element_type, A> && same<SP<A>::weak_type, WP<A>> && same<ST<A>::shared_pointer_type, SP<A>> && same<decltype(*ref<const SP<A>>()), A&> && same<decltype(ref<const SP<A[]>>()[0]), A&> && same<decltype(*ref<SP<const A>>()), const A&> && same<decltype(ref<const SP<A>>().operator->()), A*> && same<decltype(ref<WP<const A>>().lock()), SP<const A>> && same<decltype(ref<const ST<A>>().load()), SP<A>>", sc)
        hold("C27", "result types of the casts", "same<decltype(xmem::static_pointer_cast<D>(ref<SP<B1>>())), SP<D>> && same<decltype(xmem::dynamic_pointer_cast<D>(ref<SP<B1>>())), SP<D>> && same<decltype(xmem::const_pointer_cast<A>(ref<SP<const A>>())), SP<A>> && same<decltype(xmem::reinterpret_pointer_cast<int>(ref<SP<A>>())), SP<int>> && same<decltype(xmem::make_aliased(ref<SP<A>>(), ref<int*>())), SP<int>>", sc)
        # C12: declarations
        for X in ("SP", "WP"):
            for T in ("A", "const A", "D", "void", "A[]", "Incomplete"):
                t = "%s<%s>" % (X, T)
                hold("C12", "%s is declared not to throw" % t, "std::is_nothrow_copy_constructible_v<{0}> && std::is_nothrow_move_constructible_v<{0}> && std::is_nothrow_copy_assignable_v<{0}> && std::is_nothrow_move_assignable_v<{0}> && std::is_nothrow_destructible_v<{0}>".format(t), sc)
        # C31
        for X in ("SP", "WP"):
            for T in ("A", "const A", "D", "VD", "void", "A[]", "Incomplete", "Big", "char", "void*", "SP<A>", "std::string", "Em"):
                hold("C31", "%s<%s> is two pointers large" % (X, T), "szof<%s<%s>> == 2 * sizeof(void*) && alignof(%s<%s>) == alignof(void*)" % (X, T, X, T), sc)
        for T in ("A", "const A", "D", "void", "A[]", "Incomplete", "Big", "char"):
            hold("C31", "atomic storage of %s fills whole cache lines" % T, "alignof(ST<{0}>) % 64 == 0 && sizeof(ST<{0}>) % 64 == 0 && sizeof(ST<{0}>) <= 64".format(T), sc)
    # families never mix
    for s1, s2 in (("L", "M"), ("M", "L"), ("L", "C"), ("C", "L")):
        for T, P_ in (("A", "A"), ("B1", "D"), ("void", "A")):
            for fname, f in forms:
                for X, Y in (("SP", "SP"), ("WP", "WP"), ("WP", "SP"), ("SP", "WP")):
                    illegal("C27", "%s::%s from %s::%s, %s (%s from %s)" % (s1, X, s2, Y, fname, T, P_), f % {"X": "%s::%s<%s>" % (s1, X, T), "Y": "%s::%s<%s>" % (s2, Y, P_)},
                            f % {"X": "%s::%s<%s>" % (s1, X if Y == "SP" else "WP", T), "Y": "%s::%s<%s>" % (s1, Y, P_)})
        for nm, b in (("alias", "%s::SP<int> s(ref<%s::SP<A>>(), ref<int*>()); use(s);"), ("weak alias", "%s::WP<int> s(ref<%s::SP<A>>(), ref<int*>()); use(s);"), ("weak alias of weak", "%s::WP<int> s(ref<%s::WP<A>>(), ref<int*>()); use(s);"),
                      ("aliasing helper", "%s::SP<int> s = xmem::make_aliased(ref<%s::SP<A>>(), ref<int*>()); use(s);"), ("cast", "%s::SP<D> s = xmem::static_pointer_cast<D>(ref<%s::SP<B1>>()); use(s);"),
                      ("lock", "%s::SP<A> s = ref<%s::WP<A>>().lock(); use(s);"), ("storage", "%s::ST<A> s(ref<%s::SP<A>>()); use(s);"), ("store", "ref<%s::ST<A>>().store(ref<%s::SP<A>>());"),
                      ("load", "%s::SP<A> s = ref<%s::ST<A>>().load(); use(s);"), ("expectation", "use(ref<%s::ST<A>>().compare_exchange(ref<%s::SP<A>>(), {}));"), ("swap", "ref<%s::SP<A>>().swap(ref<%s::SP<A>>());"),
                      ("weak swap", "ref<%s::WP<A>>().swap(ref<%s::WP<A>>());")):
            illegal("C27", "families %s and %s mixed: %s" % (s1, s2, nm), b % (s1, s2), b % (s1, s1))
    # unique pointers
    kinds = [("A", "Del<A>", "one"), ("A", "xmem::default_delete<A>", "default"), ("A[]", "xmem::default_delete<A[]>", "array"), ("A[]", "Del<A>", "array, deleter"), ("A", "StDel<A>", "state"), ("A", "Del<A>&", "reference"),
             ("A", "StDel<A>&", "reference, state"), ("A", "const Del<A>&", "const reference"), ("A", "void(*)(A*)", "function"), ("A", "void(*)(void*)", "function, void")]
    for T, dd, nm in kinds:
        u = "UD<%s, %s>" % (T, dd)
        illegal("C27", "unique pointer copied (%s)" % nm, "%s u(ref<const %s>()); use(u);" % (u, u), "%s u(val<%s>()); use(u);" % (u, u))
        illegal("C27", "unique pointer copied from an lvalue (%s)" % nm, "%s u(ref<%s>()); use(u);" % (u, u), "%s u(std::move(ref<%s>())); use(u);" % (u, u))
        illegal("C27", "unique pointer copy-assigned (%s)" % nm, "ref<%s>() = ref<const %s>();" % (u, u), "ref<%s>() = val<%s>();" % (u, u))
        illegal("C27", "unique pointer assigned from an lvalue (%s)" % nm, "ref<%s>() = ref<%s>();" % (u, u), "ref<%s>() = val<%s>();" % (u, u))
        illegal("C27", "const unique pointer moved (%s)" % nm, "%s u(val<const %s>()); use(u);" % (u, u), "%s u(val<%s>()); use(u);" % (u, u))
        illegal("C27", "unique pointer passed by value (%s)" % nm, "take<%s>(ref<%s>());" % (u, u), "take<%s>(val<%s>());" % (u, u))
        illegal("C27", "raw pointer to unique pointer, implicit (%s)" % nm, "take<%s>(new %s);" % (u, T if T == "A" else "A[3]"), "%s u(val<%s>()); u.reset(new %s);" % (u, u, T if T == "A" else "A[3]"))
        illegal("C27", "raw pointer to unique pointer, copy initialization (%s)" % nm, "%s u = ref<A*>(); use(u);" % u, "%s u = val<%s>(); use(u);" % (u, u))
        illegal("C27", "raw pointer assigned to unique pointer (%s)" % nm, "ref<%s>() = ref<A*>();" % u, "ref<%s>().reset(ref<A*>());" % u)
        illegal("C27", "unique pointer converts to bool implicitly (%s)" % nm, "bool b = ref<%s>(); use(b);" % u, "bool b(ref<%s>()); use(b);" % u)
        illegal("C27", "unique pointer converts to a raw pointer (%s)" % nm, "A* b = ref<%s>(); use(b);" % u, "A* b = ref<%s>().get(); use(b);" % u)
        illegal("C27", "unique pointer reset through const (%s)" % nm, "ref<const %s>().reset(ref<A*>());" % u, "ref<%s>().reset(ref<A*>());" % u)
        illegal("C27", "unique pointer released through const (%s)" % nm, "use(ref<const %s>().release());" % u, "use(ref<%s>().release());" % u)
        illegal("C27", "unique pointer swapped through const (%s)" % nm, "ref<const %s>().swap(ref<%s>());" % (u, u), "ref<%s>().swap(ref<%s>());" % (u, u))
        illegal("C27", "unique pointer reset to another type (%s)" % nm, "ref<%s>().reset(ref<Un*>());" % u, "ref<%s>().reset(ref<A*>());" % u)
        illegal("C27", "unique pointer reset to a const object (%s)" % nm, "ref<%s>().reset(ref<const A*>());" % u, "ref<%s>().reset(ref<A*>());" % u)
        hold("C27", "unique pointer is not copyable (%s)" % nm, "!std::is_copy_constructible_v<{0}> && !std::is_copy_assignable_v<{0}>".format(u))
        hold("C12", "unique pointer is declared not to throw (%s)" % nm, "std::is_nothrow_move_constructible_v<{0}> && std::is_nothrow_move_assignable_v<{0}> && std::is_nothrow_destructible_v<{0}>".format(u))
        legal("C27", "unique pointer operations (%s)" % nm, "{0} u(val<{0}>()); u = val<{0}>(); u = nullptr; u.reset(); u.reset(nullptr); u.swap(ref<{0}>()); use(u.release()); if (u) use(u.get()); use(u.get_deleter()); use(u == ref<{0}>()); use(u < ref<{0}>()); std::cout_(u);".format(u).replace(" std::cout_(u);", ""))
    for nm, P_, T, P2, T2 in bad_conv:
        for fname, f in forms:
            if "move" in fname or fname == "implicit":
                # a deleter which takes anything: what is rejected is the pointer
                if P_ != "volatile A" and P2 != "void" and T2 != "volatile A":
                    illegal("C27", "unique pointer conversion, %s, %s" % (nm, fname), f % {"X": "UD<%s, Del<const volatile void>>" % T, "Y": "UD<%s, Del<const volatile void>>" % P_},
                            f % {"X": "UD<%s, Del<const volatile void>>" % T2, "Y": "UD<%s, Del<const volatile void>>" % P2})
                if nm not in ("void_to_object",) and T2 != "void":
                    illegal("C27", "unique pointer conversion with the default deleter, %s, %s" % (nm, fname), f % {"X": "UP<%s>" % T, "Y": "UP<%s>" % P_}, f % {"X": "UP<%s>" % T2, "Y": "UP<%s>" % P2})
    for fname, f in forms:
        if "move" in fname or fname == "implicit":
            for X, Y in (("UP<A>", "UP<A[]>"), ("UP<A[]>", "UP<A>"), ("UP<B1[]>", "UP<D[]>"), ("UP<B1>", "UP<D[]>"), ("UP<const A>", "UP<A[]>"), ("UD<A[], Del<A>>", "UD<A, Del<A>>"), ("UP<A[]>", "UD<A, Del<A>>"), ("UP<A>", "UD<A[], Del<A>>")):
                illegal("C27", "array and single object: %s from %s, %s" % (X, Y, fname), f % {"X": X, "Y": Y}, f % {"X": X, "Y": X})
            for X, Y in (("UP<A>", "UD<A, StDel<A>>"), ("UD<A, StDel<A>>", "UP<A>"), ("UD<A, Del2<A>>", "UD<A, Del<A>>"), ("UP<A>", "UD<A, void(*)(A*)>"), ("UD<A, void(*)(A*)>", "UP<A>"), ("UD<A, void(*)(A*)>", "UD<A, void(*)(A*, int)>") if False else ("UD<A, Del<A>>", "UD<A, StDel<A>>"), ("UP<A>", "UD<A, StDel<A>&>")):
                illegal("C27", "unique pointers with deleters which do not convert: %s from %s, %s" % (X, Y, fname), f % {"X": X, "Y": Y}, f % {"X": X, "Y": X})
            for dd in ("Del<A>", "StDel<A>", "const Del<A>"):
                illegal("C27", "reference to the deleter in another unique pointer (%s), %s" % (dd, fname), f % {"X": "UD<A, %s&>" % dd, "Y": "UD<A, %s>" % dd.replace("const ", "")}, f % {"X": "UD<A, %s&>" % dd, "Y": "UD<A, %s&>" % dd})
            illegal("C27", "function deleter of a base pointer, downwards, %s" % fname, f % {"X": "UD<D, void(*)(void*)>", "Y": "UD<B1, void(*)(void*)>"}, f % {"X": "UD<B1, void(*)(void*)>", "Y": "UD<D, void(*)(void*)>"})
            illegal("C27", "function deleter of const pointer, %s" % fname, f % {"X": "UD<A, void(*)(const void*)>", "Y": "UD<const A, void(*)(const void*)>"}, f % {"X": "UD<const A, void(*)(const void*)>", "Y": "UD<A, void(*)(const void*)>"})
    for dd in ("Del<A>", "StDel<A>"):
        illegal("C27", "reference to a temporary deleter (%s)" % dd, "UD<A, %s&> u(ref<A*>(), %s{}); use(u);" % (dd, dd), "%s d{}; UD<A, %s&> u(ref<A*>(), d); use(u);" % (dd, dd))
        illegal("C27", "reference to a temporary deleter, no pointer (%s)" % dd, "UD<A, %s&> u(%s{}); use(u);" % (dd, dd), "%s d{}; UD<A, %s&> u(d); use(u);" % (dd, dd))
        illegal("C27", "const reference to a temporary deleter (%s)" % dd, "UD<A, const %s&> u(ref<A*>(), %s{}); use(u);" % (dd, dd), "%s d{}; UD<A, const %s&> u(ref<A*>(), d); use(u);" % (dd, dd))
        illegal("C27", "const reference to a temporary deleter, no pointer (%s)" % dd, "UD<A, const %s&> u(%s{}); use(u);" % (dd, dd), "%s d{}; UD<A, const %s&> u(d); use(u);" % (dd, dd))
        illegal("C27", "const reference to a const temporary deleter (%s)" % dd, "UD<A, const %s&> u(ref<A*>(), val<const %s>()); use(u);" % (dd, dd), "UD<A, const %s&> u(ref<A*>(), ref<const %s>()); use(u);" % (dd, dd))
        illegal("C27", "mutable reference to a const deleter (%s)" % dd, "UD<A, %s&> u(ref<A*>(), ref<const %s>()); use(u);" % (dd, dd), "UD<A, %s&> u(ref<A*>(), ref<%s>()); use(u);" % (dd, dd))
        illegal("C27", "reference deleter is missing (%s)" % dd, "UD<A, %s&> u; use(u);" % dd, "UD<A, %s&> u(ref<%s>()); use(u);" % (dd, dd))
        illegal("C27", "reference deleter is missing, with a pointer (%s)" % dd, "UD<A, %s&> u(ref<A*>()); use(u);" % dd, "UD<A, %s&> u(ref<A*>(), ref<%s>()); use(u);" % (dd, dd))
    for P_ in ("A", "void"):
        illegal("C27", "function deleter is missing (%s)" % P_, "UD<A, void(*)(%s*)> u; use(u);" % P_, "UD<A, void(*)(%s*)> u(ref<void(*)(%s*)>()); use(u);" % (P_, P_))
        illegal("C27", "function deleter is missing, with a pointer (%s)" % P_, "UD<A, void(*)(%s*)> u(ref<A*>()); use(u);" % P_, "UD<A, void(*)(%s*)> u(ref<A*>(), ref<void(*)(%s*)>()); use(u);" % (P_, P_))
        illegal("C27", "function deleter is null (%s)" % P_, "UD<A, void(*)(%s*)> u(ref<A*>(), nullptr); use(u);" % P_, "UD<A, void(*)(%s*)> u(nullptr, ref<void(*)(%s*)>()); use(u);" % (P_, P_))
        illegal("C27", "function deleter alone is null (%s)" % P_, "UD<A, void(*)(%s*)> u(nullptr); use(u);" % P_, "UD<A, void(*)(%s*)> u(ref<void(*)(%s*)>()); use(u);" % (P_, P_))
    illegal("C27", "function deleter for a derived class", "UD<B1, void(*)(D*)> u(ref<B1*>(), ref<void(*)(D*)>()); use(u);", "UD<D, void(*)(B1*)> u(ref<D*>(), ref<void(*)(B1*)>()); use(u);")
    illegal("C27", "function deleter for another class", "UD<A, void(*)(Un*)> u(ref<A*>(), ref<void(*)(Un*)>()); use(u);", "UD<A, void(*)(A*)> u(ref<A*>(), ref<void(*)(A*)>()); use(u);")
    illegal("C27", "function deleter of a mutable object for a const one", "UD<const A, void(*)(A*)> u(ref<A*>(), ref<void(*)(A*)>()); use(u);", "UD<A, void(*)(const A*)> u(ref<A*>(), ref<void(*)(const A*)>()); use(u);")
    illegal("C27", "array unique pointer is dereferenced", "use(*ref<UP<A[]>>());", "use(ref<UP<A[]>>()[0]);")
    illegal("C27", "array unique pointer member access", "use(ref<UP<A[]>>()->x);", "use(ref<UP<A[]>>()[0].x);")
    illegal("C27", "unique pointer is indexed", "use(ref<UP<A>>()[0]);", "use(*ref<UP<A>>());")
    illegal("C27", "default deletion of an incomplete type", "UP<Incomplete> u(ref<Incomplete*>()); use(u);", "UP<A> u(ref<A*>()); use(u);")
    illegal("C27", "default deletion of an incomplete type, reset", "ref<UP<Incomplete>>().reset(ref<Incomplete*>());", "ref<UP<A>>().reset(ref<A*>());")
    illegal("C27", "default deletion of an array of incomplete type", "UP<Incomplete[]> u(ref<Incomplete*>()); use(u);", "UP<A[]> u(ref<A*>()); use(u);")
    for sc in "LMC":
        for fname, f in (("constructed", "%(X)s s(val<%(Y)s>()); use(s);"), ("implicit", "take<%(X)s>(val<%(Y)s>());"), ("assigned", "ref<%(X)s>() = val<%(Y)s>();")):
            for nm, X, Y, Xg in (("an array becomes an object", "SP<A>", "UP<A[]>", "SP<A[]>"), ("an array becomes an array of bases", "SP<B1[]>", "UP<D[]>", "SP<D[]>"),
                                 ("an array of const objects becomes mutable", "SP<A[]>", "UP<const A[]>", "SP<const A[]>"), ("an array becomes a base object", "SP<B1>", "UP<D[]>", "SP<const D[]>"),
                                 ("an array of const objects becomes mutable memory", "SP<void>", "UP<const A[]>", "SP<const void>")):
                illegal("C27", "%s (%s)" % (nm, fname), f % {"X": X, "Y": Y}, f % {"X": Xg, "Y": Y}, sc)
    for sc in "LM":
        illegal("C27", "shared pointer owns an incomplete type", "SP<Incomplete> u(ref<Incomplete*>()); use(u);", "SP<A> u(ref<A*>()); use(u);", sc)
    for P_, T, d1, d2 in (("D", "B1", "xmem::default_delete<D>", "xmem::default_delete<B1>"), ("D", "B2", "xmem::default_delete<D>", "xmem::default_delete<B2>"), ("A", "const A", "xmem::default_delete<A>", "xmem::default_delete<const A>"),
                          ("D", "B1", "Del<void>", "Del<void>"), ("A", "const A", "Del<const A>", "Del<const A>"), ("D", "B2", "Del<B2>&", "Del<B2>&"), ("D", "B2", "StDel<B2>&", "StDel<B2>&"), ("D", "B2", "StDel<B2>", "StDel<B2>"), ("D", "B2", "void(*)(B2*)", "void(*)(B2*)"),
                          ("D", "B1", "void(*)(void*)", "void(*)(void*)"), ("A", "const A", "void(*)(const void*)", "void(*)(const void*)")):
        for fname, f in forms:
            if "move" in fname or fname == "implicit":
                legal("C27", "unique_ptr<%s, %s> from unique_ptr<%s, %s>, %s" % (T, d2, P_, d1, fname), f % {"X": "UD<%s, %s>" % (T, d2), "Y": "UD<%s, %s>" % (P_, d1)})
    hold("C27", "types of unique pointers", "same<UP<A>::element_type, A> && same<UP<A[]>::element_type, A> && same<UP<A>::pointer, A*> && same<UP<A[]>::pointer, A*> && same<decltype(*ref<const UP<A>>()), A&> && same<decltype(ref<const UP<A[]>>()[0]), A&> && same<decltype(*ref<UP<const A>>()), const A&> && same<decltype(ref<const UP<A>>().operator->()), A*> && same<UD<A, Del<A>&>::deleter_type, Del<A>&> && same<UD<A, void(*)(A*)>::deleter_type, void(*)(A*)>")
    hold("C27", "types of the factories", "same<decltype(xmem::make_unique<A>()), UP<A>> && same<decltype(xmem::make_unique<A[]>(3)), UP<A[]>> && same<decltype(xmem::make_unique_for_overwrite<A[]>(3)), UP<A[]>> && same<decltype(xmem::make_shared<A>()), M::SP<A>> && same<decltype(xmem::make_local_shared<A>()), L::SP<A>> && same<decltype(xmem::make_unique_ptr(ref<A>())), UP<A>> && same<decltype(xmem::make_shared_ptr(val<A>())), M::SP<A>> && same<decltype(xmem::make_local_shared_ptr(ref<A>())), L::SP<A>>")
    legal("C27", "polymorphic unique pointers made and handed on", "UP<B1> a = xmem::make_unique<D>(); M::SP<B1> b = xmem::make_unique<D>(); L::SP<void> c = xmem::make_unique<D>(); M::SP<B2> d = xmem::make_shared<D>(); a = xmem::make_unique<D>(); b = xmem::make_unique<D>(); d = xmem::make_shared<D>(); use(c); use(d);")
    legal("C27", "pointer to a class which is not complete yet", "struct Node; struct Tree { UP<Node> l, r; M::SP<Node> s; M::WP<Node> w; ~Tree(); }; struct Node { Tree t; };", None, top=True)
    for T in ("A", "const A", "D", "VD", "char", "Big", "std::string", "Em", "A*", "Incomplete"):
        hold("C31", "unique_ptr<%s> is one pointer large" % T, "szof<UP<{0}>> == sizeof(void*) && alignof(UP<{0}>) == alignof(void*)".format(T))
        hold("C31", "unique_ptr<%s[]> is one pointer large" % T, "szof<UP<{0}[]>> == sizeof(void*)".format(T) if T != "Incomplete" else "szof<UP<A[]>> == sizeof(void*)")
        for dd in ("Del", "MutDel"):
            hold("C31", "unique_ptr<%s> with a stateless deleter is one pointer large (%s)" % (T, dd), "szof<UD<{0}, {1}<{0}>>> == sizeof(void*)".format(T, dd))
            if T != "Incomplete":
                hold("C31", "unique_ptr<%s[]> with a stateless deleter is one pointer large (%s)" % (T, dd), "szof<UD<{0}[], {1}<{0}>>> == sizeof(void*)".format(T, dd))
    hold("C31", "the default deleter has no state", "std::is_empty_v<xmem::default_delete<A>> && std::is_empty_v<xmem::default_delete<A[]>>")
    hold("C31", "the cache line size is one", "xmem::impl::cache_line_size >= 64")
    legal("C31", "unique pointer with a lambda as the deleter is one pointer large", "auto l = [](A* p) { delete p; }; UD<A, decltype(l)> u(ref<A*>(), l); static_assert(sizeof(u) == sizeof(void*)); use(u);")
    # std
    for T in ("A", "const A", "void", "Incomplete"):
        z = "xstd::atomic_shared_ptr_storage<%s>" % T
        hold("C31", "std atomic storage of %s fills whole cache lines" % T, "alignof({0}) % 64 == 0 && sizeof({0}) % 64 == 0 && sizeof({0}) <= 64".format(z))
        hold("C27", "std atomic storage of %s is not copyable or movable" % T, "!std::is_copy_constructible_v<{0}> && !std::is_move_constructible_v<{0}> && !std::is_copy_assignable_v<{0}> && !std::is_move_assignable_v<{0}>".format(z))
    z = "xstd::atomic_shared_ptr_storage"
    s = "std::shared_ptr"
    for nm, b, g in (("copied", "Z<A> s(ref<Z<A>>()); use(s);", "Z<A> s(ref<S<A>>()); use(s);"), ("moved", "Z<A> s(val<Z<A>>()); use(s);", "Z<A> s(val<S<A>>()); use(s);"),
                     ("copy-assigned", "ref<Z<A>>() = ref<const Z<A>>();", "ref<Z<A>>().store(ref<const Z<A>>().load());"), ("move-assigned", "ref<Z<A>>() = val<Z<A>>();", "ref<Z<A>>().store(val<Z<A>>().load());"),
                     ("stored through const", "ref<const Z<A>>().store(ref<S<A>>());", "ref<Z<A>>().store(ref<S<A>>());"), ("raw pointer stored", "ref<Z<A>>().store(new A);", "ref<Z<A>>().store(S<A>(new A));"),
                     ("raw pointer, implicit", "take<const Z<A>&>(new A);", "take<const Z<A>&>(S<A>(new A));"), ("weak pointer stored", "ref<Z<A>>().store(ref<std::weak_ptr<A>>());", "ref<Z<A>>().store(ref<std::weak_ptr<A>>().lock());"),
                     ("base stored as derived", "ref<Z<D>>().store(ref<S<B1>>());", "ref<Z<B1>>().store(ref<S<D>>());"), ("const stored as mutable", "ref<Z<A>>().store(ref<S<const A>>());", "ref<Z<const A>>().store(ref<S<A>>());"),
                     ("native pointer stored", "ref<Z<A>>().store(ref<xmem::shared_ptr<A>>());", "ref<Z<A>>().store(ref<S<A>>());"), ("standard pointer stored natively", "ref<xmem::atomic_shared_ptr_storage<A>>().store(ref<S<A>>());", "ref<Z<A>>().store(ref<S<A>>());")):
        b, g = (re.sub(r"\bZ<", z + "<", re.sub(r"\bS<", s + "<", x)) for x in (b, g))
        illegal("C27", "std atomic storage %s" % nm, b, g)
    o = "struct O : xstd::enable_shared_from { int x; void m() { %s } void c() const { %s } }; void f() { ref<O>().m(); ref<O>().c(); }"
    for nm, bad, g1, g2 in (("shared_from_this", "std::shared_ptr<void> s = this->shared_from_this(); use(s);", "std::shared_ptr<void> s = this->shared_from_this(); use(s);", "std::shared_ptr<const void> s = this->shared_from_this(); use(s);"),
                            ("weak_from_this", "std::weak_ptr<void> s = this->weak_from_this(); use(s);", "std::weak_ptr<void> s = this->weak_from_this(); use(s);", "std::weak_ptr<const void> s = this->weak_from_this(); use(s);"),
                            ("shared_from", "std::shared_ptr<int> s = this->shared_from(&this->x); use(s);", "std::shared_ptr<int> s = this->shared_from(&this->x); use(s);", "std::shared_ptr<const int> s = this->shared_from(&this->x); use(s);")):
        illegal("C27", "std %s of a const object is mutable" % nm, o % ("", bad), o % (g1, g2), None, top=True)
    # ---- C39: types which are not complete yet
    for sc in "LMC":
        for nm, c in (
                ("objects with such members are declared, held and sized", "struct Inc; struct Holder { SP<Inc> s; WP<Inc> w; SP<const Inc> cs; Holder(); ~Holder(); Holder(Holder&&); Holder(const Holder&); Holder& operator=(const Holder&); }; size_t f(Holder& h) { Holder g(h); h = g; return sizeof(Holder); }"),
                ("copied, moved, assigned, swapped", "struct Inc; void f(SP<Inc>& a, const SP<Inc>& b) { SP<Inc> c(b), d(std::move(c)), e, g(nullptr); e = b; e = std::move(d); a.swap(e); std::swap(a, e); a = nullptr; SP<const Inc> k(b); k = b; k = std::move(e); SP<void> v(b); v = b; use(g); }"),
                ("observed", "struct Inc; bool f(SP<Inc>& a, const SP<Inc>& b) { Inc* p = b.get(); Inc& r = *b; Inc* q = b.operator->(); use(p); use(q); (void)r; return a == b || a != b || a < b || (bool)b || b.use_count() || b.owner(); }"),
                ("destroyed, reset", "struct Inc; void f(SP<Inc>& a, WP<Inc>& w) { a.reset(); w.reset(); { SP<Inc> b(std::move(a)); } { WP<Inc> c(std::move(w)); } }"),
                ("weak", "struct Inc; long f(SP<Inc>& a, WP<Inc>& w, const WP<Inc>& v) { w = a; w = v; WP<Inc> x(a), y(v), z(std::move(y)); WP<const Inc> c(v); WP<void> o(a); SP<Inc> l = v.lock(); w.swap(x); return w.expired() + w.use_count(); }"),
                ("aliased", "struct Inc; void f(SP<int>& a, Inc* p) { SP<Inc> b(a, p), c(std::move(a), p); WP<Inc> w(b, p); SP<int> i(b, nullptr); use(c); }"),
                ("stored", "struct Inc; void f(ST<Inc>& s, SP<Inc>& a) { s.store(a); a = s.load(); a = s.exchange(std::move(a)); SP<Inc> e; use(s.compare_exchange(e, a)); }"),
                ("member of itself", "struct Node { SP<Node> next; WP<Node> up; ST<Node>* st; Node* get() { return next.get(); } void set(const SP<Node>& n) { next = n; up = n; } }; void f(Node& n) { n.set(n.next->next); }"),
                ("completed later, made by its own factory", "struct Inc; SP<Inc> make(); void f() { SP<Inc> s = make(); WP<Inc> w(s); } struct Inc { int x; }; SP<Inc> make() { return SP<Inc>(new Inc); }"),
                ("shared-from in the class itself", "struct O : ESFT<O> { SP<O> self() { return this->shared_from_this(); } SP<const O> self() const { return this->shared_from_this(); } WP<O> weak() { return this->weak_from_this(); } }; void f() { SP<O> s(new O); use(s->self()); use(s->weak()); }")):
            legal("C39", "shared pointers to an incomplete type: " + nm, c, sc, top=True)
        hold("C39", "the size of a pointer does not need the type", "sizeof(SP<Incomplete>) == sizeof(SP<A>) && sizeof(WP<Incomplete>) == sizeof(WP<A>)", sc)
    for nm, c in (
            ("held as a member", "struct Inc; struct Holder { UP<Inc> u; UP<Inc[]> a; UD<Inc, Del<Inc>> d; UD<Inc, void(*)(Inc*)> f; Holder(); ~Holder(); Holder(Holder&&); Holder& operator=(Holder&&); }; size_t f(Holder&& h) { Holder g(std::move(h)); h = std::move(g); return sizeof(Holder); }"),
            ("with a deleter of its own", "struct Inc; template <typename T> struct ND { void operator()(T*) const noexcept; }; void f(UD<Inc, ND<Inc>>& a, Inc* p) { UD<Inc, ND<Inc>> u(p, ND<Inc>()), v(std::move(u)), n(nullptr); v = std::move(u); v.swap(n); v.reset(p); v.reset(); v = nullptr; a = std::move(v); use((bool)a); use(a.get()); p = a.release(); }"),
            ("with a function as the deleter", "struct Inc; void kill(Inc*); void f(Inc* p) { UD<Inc, void(*)(Inc*)> u(p, kill), v(std::move(u)); v.reset(p); v = std::move(u); v.swap(u); use(v.get()); }"),
            ("observed", "struct Inc; bool f(const UP<Inc>& a, const UP<Inc>& b) { Inc* p = a.get(); Inc* q = a.operator->(); Inc& r = *a; use(p); use(q); (void)r; return (bool)a || a == b || a != b || a < b; }"),
            ("passed on by reference and released", "struct Inc; Inc* f(UP<Inc>& a, UP<Inc>& b) { a.swap(b); return a.release(); }"),
            ("completed before destruction", "struct Inc; struct Holder { UP<Inc> u; Holder(); ~Holder(); }; struct Inc { int x; }; Holder::Holder() : u(new Inc) {} Holder::~Holder() {}"),
            ("member of itself", "struct Node { UP<Node> l, r; Node* left() const { return l.get(); } void take(UP<Node> n) { l = std::move(n); } }; void f(Node& n) { n.take(xmem::make_unique<Node>()); n.take(std::move(n.l->r)); }"),
            ("void", "void f(void* p) { UD<void, void(*)(void*)> u(p, ref<void(void*)>()), v(std::move(u)); v.reset(p); v = std::move(u); u.swap(v); p = v.release(); UD<void, Del<void>> w(p), x(std::move(w)); w = std::move(x); }")):
        legal("C39", "unique pointers to an incomplete type: " + nm, c, None, top=True)
    hold("C39", "the size of a unique pointer does not need the type", "sizeof(UP<Incomplete>) == sizeof(UP<A>) && sizeof(UD<Incomplete, StDel<Incomplete>>) == sizeof(UD<A, StDel<A>>)")

    # ---- C42: the interface of the standard pointers, as far as the library has it
    for sc in "LMC":
        for nm, c in (
                ("relations between related types", "SP<B1> a; SP<D> b; bool r = a == b || a != b || a < b || a <= b || a > b || a >= b || b == a || b < a; use(r);"),
                ("relations with const and void", "SP<A> a; SP<const A> b; SP<void> c; bool r = a == b || a != c || a < b || c >= a || b == c; use(r);"),
                ("keys of ordered containers", "std::map<SP<A>, int> m; m[SP<A>(new A)] = 1; m.find(SP<A>()); std::set<SP<const A>> s; s.insert(SP<A>(new A));"),
                ("ordered by owner", "bool r = ref<SP<A>>().owner_before(ref<SP<B1>>()); use(r);"),
                ("elements of containers", "std::vector<SP<B1>> v; v.push_back(SP<D>(new D)); v.emplace_back(new D); v.insert(v.begin(), nullptr); v.erase(v.begin()); std::sort(v.begin(), v.end()); std::vector<WP<B1>> w(v.begin(), v.end()); w.push_back(v[0]); w.erase(w.begin());"),
                ("standard vocabulary types", "std::optional<SP<A>> o; o = SP<A>(new A); o.reset(); std::variant<int, SP<A>> v; v = SP<A>(); std::tuple<SP<A>, WP<A>> t(nullptr, SP<A>()); std::pair<SP<A>, int> p(SP<A>(), 1); use(o); auto l = [s = SP<A>()] { return s.get(); }; std::function<A*()> f = l; use(f);"),
                ("swap", "std::swap(ref<SP<A>>(), ref<SP<A>>()); std::swap(ref<WP<A>>(), ref<WP<A>>()); ref<SP<A>>().swap(ref<SP<A>>()); ref<WP<A>>().swap(ref<WP<A>>());"),
                ("conditions", "SP<A> a; if (a) {} if (!a) {} while (a) a.reset(); bool b = a && a; SP<A> c = b ? a : SP<A>(); SP<A> d = b ? a : nullptr; use(c); use(d);"),
                ("every way to construct", "A* p = new A; SP<A> a, b(nullptr), c(p), d(p, Del<A>()), e(nullptr, Del<A>()), f(a), g(std::move(a)), h(c, p), i(std::move(c), p), j(val<UP<A>>()), k(ref<SP<A>>()), l{}, m = nullptr, n = {}; use(l); use(n);"),
                ("every way to reset", "SP<B1> a; a.reset(); a.reset(new D); a.reset(new D, Del<D>()); a.reset(new B1, [](B1* p) { delete p; }); a = nullptr; a = SP<D>(); a = val<UP<D>>(); a = {};"),
                ("lambdas and functions as deleters", "int n = 0; SP<A> a(new A, [n](A* p) { delete p; }); SP<A> b(new A, +[](A* p) { delete p; }); SP<void> c(new A, [](A* p) { delete p; }); std::function<void(A*)> f; SP<A> d(new A, f); SP<A> e(new A, Del<A>());"),
                ("weak pointers", "WP<A> w, x(w), y(std::move(x)), z(ref<SP<A>>()); w = z; w = std::move(z); w = ref<SP<A>>(); w.reset(); w.swap(y); SP<A> s = w.lock(); bool e = w.expired(); long n = w.use_count(); WP<const A> c(w); c = w; c = s; use(e); use(n);"),
                ("every conversion in an assignment", "SP<B1> a; SP<D> b; a = b; a = std::move(b); WP<B1> w; WP<D> v; w = v; w = std::move(v); w = b; w = std::move(b); SP<const void> c; c = a; c = std::move(a); WP<const void> x; x = w; x = std::move(w); auto p = CBF::make_resource_cb<A>(xmem::allocator<char>()); auto q = std::move(p); SP<A> s(std::move(q)); q = p; q = std::move(p); q.swap(p);"),
                ("owners of weak pointers compared", "bool r = ref<WP<A>>().owner_before(ref<WP<B1>>()); use(r);"),
                ("owners compared and shown", "const SP<A>& s = ref<SP<A>>(); const SP<B1>& t = ref<SP<B1>>(); const WP<A>& w = ref<WP<A>>(); const WP<void>& v = ref<WP<void>>(); bool r = s.owner_before(t) || w.owner_before(v) || w.owner_before(t) || same_owner(s, t) || same_owner(s, w) || same_owner(w, s) || same_owner(w, v) || xmem::same_owner(s, t) || xmem::same_owner(s, v) || no_owner(s) || no_owner(w) || xmem::no_owner(t) || w.expired() || s || !w; const void* o = s.owner(); o = v.owner(); long n = s.use_count() + v.use_count(); use(r); use(o); use(n); use(s.t_owner() == w.t_owner()); (void)(*s).x; (void)s->x;"),
                ("aliases", "SP<A> s(new A); SP<int> i(s, &s->x), j(nullptr); j = xmem::make_aliased(s, &s->x); SP<void> n(SP<A>(), nullptr); WP<A> u(s); WP<int> k(s, &s->x), l(u, &s->x), m(WP<A>(), &s->x); WP<const int> c(i, j.get()); SP<int> y = l.lock(); auto z = make_aliased(y, s.get()); z = s; WP<void> v(z, nullptr); use(y); use(m); use(c);"),
                ("allocators", "SP<A> a(CBF::make_resource_cb<A>(xmem::allocator<char>())); SP<A> b(CBF::make_resource_cb_for_overwrite<A>(std::allocator<int>())); UP<A> u; SP<A> c(CBF::make_uptr_cb(u)), d(CBF::make_uptr_cb(u, std::allocator<A>())); struct K { K(int, A&, std::string&&); }; SP<K> k(CBF::make_resource_cb<K>(xmem::allocator<char>(), 1, ref<A>(), std::string()));"),
                ("arrays", "SP<A[]> a(new A[3]); a[1].x = 1; const SP<A[]> b(a); b[0].x = 2; a.reset(new A[2]); a.reset(); A* p = b.get(); SP<const A[]> c(a); use(p); use(c);"),
                ("storage", "ST<A> s, t(SP<A>(new A)), u(nullptr); SP<A> a = s.load(), e; s.store(a); s.store(nullptr); s.store(std::move(a)); a = s.exchange(SP<A>()); use(s.compare_exchange(e, a)); use(s.compare_exchange(e, nullptr)); use(s.compare_exchange(e, std::move(a))); const ST<A>& c = s; a = c.load(); ST<B1> b; b.store(SP<D>()); b.store(val<UP<D>>());"),
                ("deduction in templates", "auto f = [](const auto& s) { using S = std::decay_t<decltype(s)>; S t(s); return t; }; use(f(ref<SP<A>>())); use(f(ref<WP<A>>()));"),
                ("printing", "extern std::ostream& o; o << ref<const SP<A>>() << ref<const SP<void>>();")):
            legal("C42", "shared pointers: " + nm, c, sc)
        legal("C42", "shared pointers: objects which are const", "struct S : ESF { S(); SP<const void> self() const { return this->shared_from_this(); } }; struct T : ESFT<T> { int x; T(); }; SP<const A> a(new const A{}), b(UP<const A>(new const A{})); SP<const S> c(new const S), d(UP<const S>(new const S)), e(xmem::make_unique<const S>()); SP<const T> f(new const T), g = f->shared_from_this(); WP<const T> h = f->weak_from_this(); a.reset(new const A{}); c.reset(new const S); c.reset(new const S, [](const S*) {}); c = xmem::make_unique<const S>(); SP<const A> k(CBF::make_resource_cb<const A>(xmem::allocator<char>())), l(CBF::make_resource_cb_for_overwrite<const S>(xmem::allocator<char>()).cb ? nullptr : a); SP<const T> m(CBF::make_resource_cb<const T>(xmem::allocator<char>())); SP<volatile int> v(new volatile int(1)), w(CBF::make_resource_cb<volatile int>(xmem::allocator<char>(), 2)); use(h); use(c->self());", sc)
        legal("C42", "shared pointers: classes with an operator new of their own", "struct N { int x; static void* operator new(size_t); static void operator delete(void*); }; struct ND { static void* operator new(size_t); static void operator delete(void*); void operator()(N*) const noexcept; }; SP<N> a(new N), b(CBF::make_resource_cb<N>(xmem::allocator<char>())), c(CBF::make_resource_cb_for_overwrite<N>(xmem::allocator<char>())), d(UP<N>(new N)), e(new N, ND()), f(CBF::make_resource_cb<N>(xmem::allocator<char>(), N{2})); a.reset(new N); a.reset(new N, ND()); a = UD<N, ND>(new N, ND()); SP<const N> g(new const N{}); auto u = xmem::make_unique<N>(); u = xmem::make_unique_for_overwrite<N>(); a = std::move(u);", sc)
        legal("C42", "shared pointers: arrays from unique pointers", "UP<A[]> u(new A[2]); SP<A[]> a(std::move(u)), b(xmem::make_unique<A[]>(3)), c = xmem::make_unique<A[]>(3); a = UP<A[]>(); a = xmem::make_unique_for_overwrite<A[]>(2); SP<const A[]> d(UP<A[]>(new A[1])), e(UP<const A[]>(new const A[1]{})); d = UP<A[]>(); SP<void> v(xmem::make_unique<A[]>(2)); v = UP<A[]>(); SP<A[]> g(UD<A[], StDel<A>>(new A[2], StDel<A>())), h(UD<A[], MutDel<A>>(new A[2], MutDel<A>())); a[1].x = 3; take<SP<A[]>>(xmem::make_unique<A[]>(2));", sc)
        legal("C42", "shared pointers: arrays cast and aliased", "SP<const A[]> c(new A[2]); SP<A[]> a = xmem::const_pointer_cast<A[]>(c); a = xmem::const_pointer_cast<A[]>(SP<const A[]>()); SP<void> v(a); a = xmem::static_pointer_cast<A[]>(v); a = xmem::reinterpret_pointer_cast<A[]>(SP<int[]>()); SP<A[]> b(v, new A[3]), d(c, a.get()); SP<A[]> e(SP<A>(), ref<A*>()); WP<A[]> w(v, ref<A*>()), x(WP<void>(), ref<A*>()); SP<A[2]> f(v, ref<A*>()); SP<int[][3]> m(v, ref<int(*)[3]>()); SP<int[]> n(m, m[1]); SP<int> o(m, &m[1][1]); use(xmem::make_aliased(m, &m[0][0])); SP<B1[]> p(new B1[2]); SP<D> q(p, ref<D*>()); a = xmem::static_pointer_cast<A[]>(xmem::static_pointer_cast<void>(a)); SP<D> r = xmem::dynamic_pointer_cast<D>(ref<SP<B1[]>>());", sc)
        legal("C42", "shared pointers: allocators of every kind", "SP<A> a; a.reset(new A, Del<A>(), Al1<int>()); a.reset(new A, Del<A>(), Al2<char, A>()); a.reset(new A, Del<A>(), AlN<int, 4>()); a.reset(new A, Del<A>(), AlO()); a.reset(new A, Del<A>(), std::allocator<void*>()); SP<A> b(CBF::make_resource_cb<A>(AlN<int, 4>())), c(CBF::make_resource_cb_for_overwrite<A>(AlO())), e(CBF::make_resource_cb<A>(Al2<int, A>())); SP<const A> d(CBF::make_resource_cb<const A>(Al1<int>()));", sc)
        legal("C42", "shared pointers: arrays of arrays and of fixed size", "SP<A[]> r(new A[2]); SP<A[5]> p(new A[5]), q(p); p[1].x = 2; q = p; p.reset(new A[5]); A* g = p.get(); WP<A[5]> w(p); q = w.lock(); p.swap(q); r = p; SP<const A[5]> c(p); SP<void> v(p); SP<int[][3]> m(new int[2][3]), n(m); m[1][2] = 4; n = std::move(m); n.reset(new int[1][3]); n.reset(new int[1][3], [](int (*o)[3]) { delete[] o; }); n = UP<int[][3]>(new int[2][3]); SP<int[][3]> o(xmem::make_unique<int[][3]>(2)); SP<const int[][3]> k(n); v = m; int (*i)[3] = n.get(); WP<int[][3]> x(n); n = x.lock(); ST<int[][3]> s(n); n = s.load(); SP<A[][2][3]> z(new A[1][2][3]); z[0][1][2].x = 1; use(g); use(i);", sc)
        legal("C42", "shared pointers: reset with a deleter and an allocator", "SP<B1> p; StDel<D> e{5}; p.reset(new D, e, xmem::allocator<char>()); p.reset(new D, Del<D>(), std::allocator<int>()); p.reset(new B1, [](B1* b) { delete b; }, xmem::allocator<A>()); SP<void> v; v.reset(new A, Del<A>(), xmem::allocator<char>()); SP<const A> c; c.reset(new A, Del<A>(), xmem::allocator<char>());", sc)
        legal("C42", "shared pointers: returned from functions", "SP<B1> f1() { return SP<D>(new D); } SP<B1> f2() { return nullptr; } SP<B1> f3() { return {}; } SP<void> f4() { return xmem::make_unique<A>(); } SP<B1> f5(SP<D> d) { return d; } WP<B1> f6() { return SP<D>(); } WP<const A> f7(WP<A> w) { return w; }", sc, top=True)
        legal("C42", "shared-from: classes, bases and calls", "struct O : ESFT<O> { int x; }; struct P : O { }; struct Q : B1, ESF { SP<void> self() { return this->shared_from_this(); } SP<int> part(int* p) { return this->shared_from(p); } WP<int> wpart(int* p) { return this->weak_from(p); } WP<void> wself() { return this->weak_from_this(); } }; void f() { SP<O> a(new O); SP<O> b = a->shared_from_this(); WP<O> c = a->weak_from_this(); SP<P> d(new P); SP<O> e = d->shared_from_this(); SP<const O> g(new O); SP<const O> h = g->shared_from_this(); SP<Q> q(new Q); SP<B1> r(new Q); use(q->self()); q->part(&q->b1); O x, y(x); y = x; const O& k = y; SP<const O> l = k.shared_from_this(); WP<const O> m = k.weak_from_this(); Q u, v(u); u = v; struct I : ESF { SP<const void> self() const { return this->shared_from_this(); } WP<const void> wself() const { return this->weak_from_this(); } }; const I i; use(i.self()); use(i.wself()); q->wpart(&q->b1); q->wself(); }", sc, top=True)
        hold("C42", "types of shared pointers", "same<SP<A>::element_type, A> && same<WP<A>::element_type, A> && same<SP<A[]>::element_type, A> && same<SP<const A>::element_type, const A> && same<SP<A>::weak_type, WP<A>> && same<decltype(ref<const WP<A>>().lock()), SP<A>> && same<decltype(*ref<const SP<A>>()), A&> && same<decltype(ref<const SP<A>>().get()), A*> && same<decltype(ref<const SP<const A>>().get()), const A*> && same<decltype(ref<const SP<A>>().operator->()), A*> && same<decltype(ref<const SP<A[]>>()[0]), A&> && same<decltype(ref<const SP<void>>().get()), void*>", sc)
        hold("C42", "types of assignments", "same<decltype(ref<SP<A>>() = ref<SP<A>>()), SP<A>&> && same<decltype(ref<SP<A>>() = nullptr), SP<A>&> && same<decltype(ref<SP<A>>() = val<UP<A>>()), SP<A>&> && same<decltype(ref<WP<A>>() = ref<SP<A>>()), WP<A>&> && same<decltype(ref<WP<A>>() = val<WP<A>>()), WP<A>&> && same<decltype(ref<SP<B1>>() = val<SP<D>>()), SP<B1>&>", sc)
        hold("C42", "types of the storage", "same<decltype(ref<const ST<A>>().load()), SP<A>> && same<decltype(ref<ST<A>>().exchange(ref<SP<A>>())), SP<A>> && same<decltype(ref<ST<A>>().compare_exchange(ref<SP<A>>(), ref<SP<A>>())), bool>", sc)
        for T, F in (("B1", "D"), ("B2", "D"), ("const A", "A"), ("void", "A"), ("const void", "const A"), ("V", "VD"), ("A", "A"), ("volatile A", "A"), ("const B2", "D")):
            hold("C42", "conversions which exist, %s from %s" % (T, F),
                 " && ".join(["std::is_convertible_v<%s<%s>%s, %s<%s>>" % (Y, F, r, X, T) for X, Y in (("SP", "SP"), ("WP", "WP"), ("WP", "SP")) for r in ("", "&", " const&")]
                             + ["std::is_assignable_v<%s<%s>&, %s<%s>%s>" % (X, T, Y, F, r) for X, Y in (("SP", "SP"), ("WP", "WP"), ("WP", "SP")) for r in ("", "&", " const&")]), sc)
    for sc, ns in (("L", "xmem::make_local_shared"), ("M", "xmem::make_shared")):
        legal("C42", "factories of objects which are const", "struct S : ESF { int x; }; S y; const S& z = y; SP<const A> a = %s<const A>(), b = %s_for_overwrite<const A>(), c = %s_ptr(ref<const A>()); SP<const S> d = %s<const S>(), e = %s_for_overwrite<const S>(), f = %s_ptr(z); auto g = %s<const std::string>(\"x\"); static_assert(same<decltype(g), SP<const std::string>>); struct N { int x; static void* operator new(size_t); static void operator delete(void*); }; SP<N> n = %s<N>(), o = %s_for_overwrite<N>(), p = %s_ptr(N{1}); SP<const N> q = %s<const N>();".replace("%s", ns), sc)
        legal("C42", "factories of shared pointers", "struct K { K(int, A&, std::string&&); }; SP<K> a = %s<K>(1, ref<A>(), std::string()); auto b = %s<A>(); auto c = %s_for_overwrite<A>(); SP<B1> d = %s<D>(); auto e = %s_ptr(A()); auto g = %s_ptr(std::string(\"x\")); static_assert(same<decltype(g), SP<std::string>>); std::vector v{%s<A>()}; use(b); use(c); use(e);".replace("%s", ns), sc)
        legal("C42", "casts of shared pointers", "SP<B1> b; SP<D> d = xmem::static_pointer_cast<D>(b); d = xmem::dynamic_pointer_cast<D>(b); SP<const A> c; SP<A> m = xmem::const_pointer_cast<A>(c); SP<int> r = xmem::reinterpret_pointer_cast<int>(m); d = xmem::dynamic_pointer_cast<D>(std::move(b)); d = xmem::static_pointer_cast<D>(SP<B1>()); m = xmem::const_pointer_cast<A>(std::move(c)); d = static_pointer_cast<D>(b); d = dynamic_pointer_cast<D>(ref<SP<B2>>());", sc)
    for nm, c in (
            ("relations between related types", "UP<B1> a; UP<D> b; bool r = a == b || a != b || a < b || a <= b || a > b || a >= b || b == a; use(r);"),
            ("keys and elements of containers", "std::map<UP<A>, int> m; m.emplace(UP<A>(new A), 1); std::set<UP<A>> s; s.insert(UP<A>(new A)); std::vector<UP<B1>> v; v.push_back(xmem::make_unique<D>()); v.emplace_back(new D); v.insert(v.begin(), nullptr); v.erase(v.begin()); v.resize(9); std::sort(v.begin(), v.end());"),
            ("standard vocabulary types", "std::optional<UP<A>> o; o = xmem::make_unique<A>(); std::variant<int, UP<A>> v; v = UP<A>(); std::tuple<UP<A>, int> t(nullptr, 1); std::pair p{xmem::make_unique<A>(), 1}; auto l = [u = UP<A>()] { return u.get(); }; use(p); (void)l;"),
            ("swap", "std::swap(ref<UP<A>>(), ref<UP<A>>()); std::swap(ref<UP<A[]>>(), ref<UP<A[]>>()); std::swap(ref<UD<A, StDel<A>>>(), ref<UD<A, StDel<A>>>()); std::swap(ref<UD<A, StDel<A>&>>(), ref<UD<A, StDel<A>&>>()); std::swap(ref<UD<A, void(*)(A*)>>(), ref<UD<A, void(*)(A*)>>()); ref<UD<A, StDel<A>&>>().swap(ref<UD<A, StDel<A>&>>());"),
            ("every way to construct", "A* p = new A; UP<A> a, b(nullptr), c(p), e(std::move(c)), f{}, g = nullptr, h = {}; UD<A, StDel<A>> i(p, StDel<A>()), j(std::move(i)); StDel<A> s; UD<A, StDel<A>&> k(p, s), l(std::move(k)); UD<A, const StDel<A>&> m(p, s), n(std::move(m)); UD<A, StDel<A>> o(std::move(l)); UD<A, void(*)(A*)> q(p, +[](A*) {}), t(nullptr, +[](A*) {}), r(std::move(q)); auto z = [](A*) {}; UD<A, decltype(z)> x(p, z), y(std::move(x)); UD<A, std::function<void(A*)>> fu(p, [](A*) {}); use(f); use(h);"),
            ("every way to assign and reset", "UP<B1> a; a = UP<D>(); a = nullptr; a.reset(); a.reset(new D); a.reset(nullptr); a = {}; B1* p = a.release(); UD<A, StDel<A>> s(nullptr, StDel<A>()); s = UD<A, StDel<A>>(nullptr, StDel<A>()); s = nullptr; s.reset(new A); use(p);"),
            ("every kind of deleter, every operation", "UP<B1> a; UP<D> b; a = std::move(b); UP<B1> c(std::move(b)); a.swap(c); using G = StDel<B1>; UD<B1, G> d(nullptr, G()); UD<D, G> e(nullptr, G()); d = std::move(e); UD<B1, G> f(std::move(e)); d.swap(f); d = nullptr; use(std::as_const(d).get_deleter().id); G g{}; UD<B1, G&> h(g), i(nullptr, g); UD<D, G&> j(g); h = std::move(j); UD<B1, G&> k(std::move(j)); h.swap(k); h = nullptr; h.reset(); h.reset(new D); h = std::move(i); use(h.get_deleter().id); use(std::as_const(h).get_deleter().id); using F = void(*)(B1*); UD<B1, F> l(ref<void(B1*)>()), m(nullptr, ref<void(B1*)>()); UD<D, F> n(ref<void(B1*)>()); l = std::move(n); UD<B1, F> o(std::move(n)); l.swap(o); l = nullptr; l = std::move(m); l.reset(new B1); F q = l.get_deleter(); q = std::as_const(l).get_deleter(); UD<A[], StDel<A>> r(nullptr, StDel<A>()); r = nullptr; use(std::as_const(r).get_deleter().id); use(r.get_deleter().id); use(q); use(std::as_const(a).get_deleter()); use(h.release()); use(l.release()); use(h.get()); use(*h); use(h->b1); use(l->b1); if (h || l || !r) {}"),
            ("lambdas without captures as deleters", "auto z = [](A* p) { delete p; }; UD<A, decltype(z)> x(new A, z), y(std::move(x)); x.swap(y); x = nullptr; x.reset(); auto w = [](A* p) { delete[] p; }; UD<A[], decltype(w)> e(new A[2], w), f(std::move(e)); e.swap(f); M::SP<A> s(std::move(y)), t(new A, z); s.reset(new A, z);"),
            ("deleters with members of any name", "struct N { int* m_ptr = nullptr; int m = 0, m_deleter = 0, m_obj = 0, cb = 0, ptr = 0; using element_type = char; using deleter_type = short; struct common {}; void operator()(A*) const noexcept; int get() const; int release(); int reset(); int swap(N&); int get_deleter(); explicit operator bool() const; int operator*() const; int* operator->() const; int operator[](size_t) const; void destroy_self(); void destroy_resource(); void obj(); void create(); }; UD<A, N> a(new A, N()), b(std::move(a)), c, d(new A); a = std::move(b); a.swap(c); a = nullptr; a.reset(new A); (*a).x = a->x; A* p = a.get(); p = a.release(); if (a) {} a.get_deleter().m_ptr = nullptr; use(a == b); UD<A[], N> e(new A[2], N()), f(std::move(e)); e = std::move(f); e.swap(f); e[1].x = 1; e.reset(); e = nullptr; if (e) {} p = e.get(); p = e.release(); N n; UD<A, N&> r(new A, n), q(std::move(r)); r.swap(q); M::SP<A> s(new A, N()), t(std::move(d)); s.reset(new A, N()); L::SP<A> l(new A, N(), xmem::allocator<char>()); use(p);".replace("L::SP<A> l(new A, N(), xmem::allocator<char>());", "L::SP<A> l; l.reset(new A, N(), xmem::allocator<char>());")),
            ("deleters which can only be moved", "struct MoDel { MoDel(); MoDel(MoDel&&) noexcept; MoDel& operator=(MoDel&&) noexcept; void operator()(A*) noexcept; }; UD<A, MoDel> a(nullptr, MoDel()), b(std::move(a)), c, d(new A); a = std::move(b); a.swap(c); a = nullptr; UD<A[], MoDel> e(nullptr, MoDel()), f(std::move(e)); e = std::move(f); e.swap(f); M::SP<A> s(new A, MoDel()), t(std::move(a)), u(nullptr, MoDel()); s.reset(new A, MoDel()); s.reset(new A, MoDel(), xmem::allocator<char>()); s = std::move(d); L::SP<const A> l(std::move(c)), m(new A, MoDel()); L::SP<A[]> n(new A[2], MoDel()); MoDel g; UD<A, MoDel&> h(new A, g), i(std::move(h)); h.swap(i); M::SP<A> v(std::move(h)); auto z = [q = std::unique_ptr<int>()](A*) {}; UD<A, decltype(z)> w(new A, std::move(z)), x(std::move(w)); M::SP<A> y(std::move(x));"),
            ("arrays", "UP<A[]> a = xmem::make_unique<A[]>(4); a[1].x = 2; A* p = a.release(); a.reset(p); a.reset(); a.reset(nullptr); a = nullptr; if (a) {} a = xmem::make_unique_for_overwrite<A[]>(2); UP<A[]> b(std::move(a)), c(nullptr), d; b.swap(c); p = b.get(); UD<A[], Del<A>> e(p, Del<A>()), f(std::move(e)); e = nullptr; e = std::move(f); const UP<A[]>& k = b; k[0].x = 1;"),
            ("arrays of arrays", "UP<int[][3]> a(new int[2][3]), b(std::move(a)), c; c = std::move(b); c.swap(b); c[1][2] = 3; c.reset(new int[1][3]); int (*p)[3] = c.release(); a = xmem::make_unique<int[][3]>(2); a = xmem::make_unique_for_overwrite<int[][3]>(2); a.reset(p); L::SP<int[][3]> s(std::move(a)); M::SP<const int[][3]> t(std::move(c));"),
            ("observers of constants", "const UP<A> u; u.get_deleter()(nullptr); use(u.get()); (void)(*u).x; (void)u->x; if (u) {} if (!u) {} const UD<A, StDel<A>> v(nullptr, StDel<A>()); use(v.get_deleter().id); UD<A, StDel<A>> w(nullptr, StDel<A>()); w.get_deleter().id = 3;"),
            ("void", "UD<void, void(*)(void*)> u(nullptr, ref<void(void*)>()); u.reset(nullptr); UD<void, Del<void>> v(nullptr); v.reset(); void* p = v.get(); M::SP<void> s(std::move(v)); L::SP<void> l(std::move(u)); use(p);"),
            ("factories", "struct K { K(int, A&, std::string&&); }; UP<K> a = xmem::make_unique<K>(1, ref<A>(), std::string()); UP<B1> b = xmem::make_unique<D>(); auto c = xmem::make_unique_ptr(std::string(\"x\")); static_assert(same<decltype(c), UP<std::string>>); auto d = xmem::make_unique_for_overwrite<A>(); auto e = xmem::make_unique<A[]>(3); use(d); use(e);"),
            ("handed on to shared pointers", "M::SP<B1> a = xmem::make_unique<D>(); a = xmem::make_unique<D>(); M::SP<void> b = UD<A, StDel<A>>(new A, StDel<A>()); L::SP<A> c(UD<A, void(*)(A*)>(new A, ref<void(A*)>())); StDel<A> s; M::SP<const A> d(UD<A, StDel<A>&>(new A, s)); std::vector<M::SP<B1>> v; v.push_back(xmem::make_unique<D>()); v.emplace_back(xmem::make_unique<D>());"),
            ("printing", "extern std::ostream& o; o << ref<const UP<A>>() << ref<const UD<A, StDel<A>>>();"),
            ("conditions", "bool b = true; UP<A> u = b ? xmem::make_unique<A>() : nullptr; while (u) u.reset(); bool c = u && !u; use(c);"),
            ("deleters by themselves", "xmem::default_delete<B1> d; xmem::default_delete<D> e; d = e; xmem::default_delete<B2> g(e); xmem::default_delete<A[]> f; f(new A[2]); d(nullptr); use(g);"),
            ("standard helpers", "std::shared_ptr<A> s = xstd::make_shared_ptr(A()); std::unique_ptr<A> u = xstd::make_unique_ptr(A()); std::shared_ptr<int> i = xstd::make_aliased(s, &s->x); std::weak_ptr<A> w(s); bool b = xstd::same_owner(s, i) || xstd::same_owner(w, s) || xstd::same_owner(s, w) || xstd::same_owner(w, w) || xstd::no_owner(s) || xstd::no_owner(w); xstd::atomic_shared_ptr_storage<A> z, y(s); z.store(s); s = z.load(); s = z.exchange(std::move(s)); std::shared_ptr<A> e; b = z.compare_exchange(e, s); use(b); use(u);")):
        legal("C42", "unique pointers: " + nm, c)
    legal("C42", "shared-from of standard pointers", "struct O : xstd::enable_shared_from { int x; void m() { std::shared_ptr<void> a = shared_from_this(); std::weak_ptr<void> b = weak_from_this(); std::shared_ptr<int> c = shared_from(&x); std::weak_ptr<int> d = weak_from(&x); std::shared_ptr<O> e = shared_from(this); use(a); use(d); use(e); } void c() const { std::shared_ptr<const void> a = shared_from_this(); std::weak_ptr<const void> b = weak_from_this(); std::shared_ptr<const int> c = shared_from(&x); std::weak_ptr<const O> d = weak_from(this); use(a); use(c); } }; void f() { auto o = std::make_shared<O>(); o->m(); o->c(); std::shared_ptr<O> p(new O(*o)); *p = *o; }", None, top=True)
    legal("C42", "unique pointers returned from functions", "UP<B1> f1() { return xmem::make_unique<D>(); } UP<B1> f2() { return nullptr; } UP<B1> f3() { return {}; } UP<B1> f4(UP<D> d) { return d; } M::SP<B1> f5() { return xmem::make_unique<D>(); } UP<A[]> f6() { return xmem::make_unique<A[]>(2); } UD<A, StDel<A>> f7() { return UD<A, StDel<A>>(new A, StDel<A>()); }", None, top=True)
    hold("C42", "move-only", "!std::is_copy_constructible_v<UP<A>> && !std::is_copy_assignable_v<UP<A>> && std::is_move_constructible_v<UP<A>> && std::is_move_assignable_v<UP<A>> && std::is_nothrow_default_constructible_v<UP<A>> && std::is_nothrow_move_constructible_v<UP<A[]>> && std::is_nothrow_move_constructible_v<UD<A, StDel<A>&>> && std::is_nothrow_move_constructible_v<UD<A, void(*)(A*)>>")
    for T, F in (("B1", "D"), ("B2", "D"), ("const A", "A"), ("V", "VD"), ("const B2", "D")):
        hold("C42", "conversions of unique pointers which exist, %s from %s" % (T, F), "std::is_convertible_v<UP<{1}>, UP<{0}>> && std::is_assignable_v<UP<{0}>&, UP<{1}>> && std::is_convertible_v<UP<{1}>, M::SP<{0}>> && std::is_assignable_v<L::SP<{0}>&, UP<{1}>> && std::is_convertible_v<UP<{1}>, M::SP<void const>>".format(T, F))
    return out


def headers():
    out = []
    for d, _, fs in sorted(os.walk(build.INC)):
        out += [os.path.relpath(os.path.join(d, f), build.INC) for f in sorted(fs) if f.endswith((".hpp", ".h"))]
    return sorted(out)


def header_obs():
    """(name, kind, text)"""
    hs = headers()
    out = []
    for a in hs:
        out.append(Ob("C35", "alone", "%s compiles on its own" % a, "#include <%s>\n" % a))
        out.append(Ob("C35", "odr", "%s defines nothing twice" % a, "#include <%s>\n#include <%s>\n" % (a, a)))
        for b in hs:
            if a != b:
                out.append(Ob("C35", "pair", "%s compiles after %s" % (b, a), "#include <%s>\n#include <%s>\n" % (a, b)))
    out.append(Ob("C35", "odr", "all headers define nothing twice", "".join("#include <%s>\n" % h for h in hs)))
    out.append(Ob("C35", "odr", "all headers in reverse define nothing twice", "".join("#include <%s>\n" % h for h in reversed(hs))))
    return out


# what the library declares but does not define
UNDEFINED = re.compile(r"warning: (instantiation of (function|variable) '|inline function ')(xmem|xstd)::.*\[-Wundefined-(func-template|inline|var-template)\]")


def command(config, extra=(), flags=()):
    return [build.CLANG] + build.CONFIGS[config] + list(flags) + ["-Wno-everything", "-Wundefined-func-template", "-Wundefined-inline", "-fsyntax-only", "-ferror-limit=3", "-I" + build.INC] + list(extra)


@suite("types")
class Types:
    def __init__(self, prop, tier, pre, config="17", flags=(), take=(), skip="$^"):
        """take, skip: the legal programs of these properties, but not those which match, are obligations of this one."""
        self.prop, self.config, self.flags = prop, config, list(flags)
        self.obs = [o for o in gen() if o.prop == prop or prop == "*"]
        self.obs += [Ob(prop, o.kind, o.name, o.code, None, o.scope) for o in gen() if o.prop in take and o.kind == "legal" and not re.search(skip, o.code + o.name)]
        self.hdr = header_obs() if prop in ("C35", "*") else []
        if not self.obs:
            self.positives = self.negatives = []
            return
        # the common part is parsed once
        # (a compiler refuses a parsed header once a source has another time stamp, so it is not kept for other runs)
        d = tempfile.mkdtemp(prefix="types-", dir=os.makedirs(build.BUILD, exist_ok=True) or build.BUILD)
        atexit.register(shutil.rmtree, d, True)
        hdr, pch = os.path.join(d, "pre.hpp"), os.path.join(d, "pre.pch")
        with open(hdr, "w") as f:
            f.write(PRE)
        r = subprocess.run([build.CLANG] + build.CONFIGS[config] + self.flags + ["-w", "-I" + build.INC, "-x", "c++-header", hdr, "-o", pch], capture_output=True, text=True)
        if r.returncode and self.flags and not subprocess.run(
                [build.CLANG] + build.CONFIGS[config] + ["-w", "-I" + build.INC, "-fsyntax-only", "-x", "c++", hdr], capture_output=True).returncode:
            # only what the flags forbid stops them
            self.positives, self.negatives, self.hdr = [], [], []
            self.finding(pre, Ob(prop, "legal", "the headers", PRE.strip(), None, ""), "does not compile: the headers with " + " ".join(self.flags), r.stderr)
            return
        if r.returncode:
            raise AnalysisError("the headers do not compile (%s):\n%s" % (config, r.stderr[-3000:]))
        self.pch = pch
        self.positives = [o for o in self.obs if o.kind != "illegal"] + [Ob(o.prop, "control", o.name, o.control, None, o.scope) for o in self.obs if o.kind == "illegal"]
        self.negatives = [o for o in self.obs if o.kind == "illegal"]

    def items(self):
        it = [("pos", c) for c in chunks(self.positives, 40)]
        it += [("neg", c) for c in chunks(self.negatives, 8)]
        it += [("hdr", c) for c in chunks(self.hdr, 12)]
        return it

    def cost(self, it):
        return len(it[1]) / 4 if it[0] == "pos" else len(it[1])

    def label(self, it):
        return "types %s %s (%s)" % (it[0], it[1][0].name, " ".join([self.config] + self.flags))

    def compile(self, text):
        r = subprocess.run(command(self.config, ["-include-pch", self.pch, "-x", "c++", "-"], self.flags), input=text, capture_output=True, text=True)
        if r.returncode and ("error:" not in r.stderr or "precompiled header" in r.stderr):
            raise AnalysisError("clang failed: %s" % r.stderr[-1000:])
        if not r.returncode and UNDEFINED.search(r.stderr):
            return None, r.stderr
        return r.returncode == 0, r.stderr

    def missing(self, text):
        """What a program needs from the library, which is headers only, but does not find there."""
        cmd = [x for x in command(self.config, ["-include-pch", self.pch, "-x", "c++", "-", "-O0", "-S", "-emit-llvm", "-o", "-"], self.flags) if x != "-fsyntax-only"]
        r = subprocess.run(cmd, input=text, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("clang failed: %s" % r.stderr[-1000:])
        names = re.findall(r'^declare .*?@"?(_ZNK?4x(?:mem|std)[^"(]*)', r.stdout, re.M) + re.findall(r'^@"?(_Z(?:T[VTIS])?NK?4x(?:mem|std)[^" ]*)"? = external', r.stdout, re.M)
        if not names:
            return []
        p = subprocess.run(["c++filt"] + names, capture_output=True, text=True)
        return sorted(set(p.stdout.strip().split("\n")))

    def run(self, it, r):
        kind, obs = it
        for o in obs:
            r.obl[o.prop] += 1
        r.cases += len(obs)
        if kind == "hdr":
            for o in obs:
                self.header(r, o)
        elif kind == "pos":
            text = "\n".join(prog(o.code, o.scope, i) for i, o in enumerate(obs))
            ok, err = self.compile(text)
            if ok:
                linked = [o for o in obs if o.kind == "legal" and o.prop in ("C42", "C43", "C39")]
                if linked and self.missing("\n".join(prog(o.code, o.scope, i) for i, o in enumerate(linked))):
                    for o in linked:
                        for nm in self.missing(prog(o.code, o.scope, 0)):
                            self.finding(r, o, "a program uses what is declared but not defined: %s: %s" % (o.name, nm), "")
                return
            any_ = False
            for i, o in enumerate(obs):
                ok, err = self.compile(prog(o.code, o.scope, i))
                if not ok:
                    any_ = True
                    what = "a program uses what is declared but not defined: " if ok is None else {"hold": "does not hold: ", "legal": "a legal program does not compile: ", "control": "the legal counterpart of a rejected program does not compile: "}[o.kind]
                    self.finding(r, o, what + o.name, err)
            if not any_:
                raise AnalysisError("legal programs compile one by one but not together:\n" + err[-500:])
        else:
            for i, o in enumerate(obs):
                ok, err = self.compile(prog(o.code, o.scope, i))
                if ok is not False:
                    self.finding(r, o, "an illegal program compiles: " + o.name, "")

    def header(self, r, o):
        cmd = [build.CLANG] + build.CONFIGS[self.config] + ["-w", "-ferror-limit=3", "-I" + build.INC, "-x", "c++", "-"]
        cmd += ["-S", "-emit-llvm", "-o", "-"] if o.kind == "odr" else ["-fsyntax-only"]
        p = subprocess.run(cmd, input=o.code, capture_output=True, text=True)
        if p.returncode:
            if "error:" not in p.stderr:
                raise AnalysisError("clang failed: %s" % p.stderr[-1000:])
            self.finding(r, o, "does not compile: " + o.name, p.stderr)
            return
        if o.kind == "odr":
            for l in p.stdout.split("\n"):
                m = re.match(r"define ([^@]*)@([^(]+)\(", l) or re.match(r"@(?P<n>[^ ]+) = (?P<a>.*?)\b(global|constant)\b", l)
                if not m:
                    continue
                attrs, name = (m.group("a"), m.group("n")) if "n" in m.re.groupindex else (m.group(1), m.group(2))
                if re.search(r"linkonce|weak|internal|private|available_externally|external|appending", attrs):
                    continue
                self.finding(r, o, "does not hold: %s: %s has a strong definition" % (o.name, name), "")

    def finding(self, r, o, msg, err):
        fam = {"L": "local", "M": "atomic", "C": "user-supplied"}.get(o.scope)
        msg = msg + (" [%s family]" % fam if fam else "")
        where = []
        for m in re.finditer(r"^(\S+?):(\d+):\d+: (error|note|warning): (.*)$", err, re.M):
            if m.group(1).startswith(build.INC):
                where.append((m.group(4)[:160], m.group(1), m.group(2)))
        if not where:
            m = re.search(r"error: (.*)", err)
            where = [(m.group(1)[:160] if m else prog(o.code, o.scope, 0), "<program>", "1")]
        f = Finding((o.prop,), msg, tuple(where[:8]), prog(o.code, o.scope, 0), " ".join(["-std=%s" % self.config] + self.flags))
        f.config = self.config
        r.findings.append(f)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]
