"""The operations under analysis on shared and weak pointers, as small witness programs with their specification.

Each op is a C++ function whose parameters are handles (shared/weak pointers, storages), raw memory or
object pointers.  `post` gives the specified final (owner, object) of the handles.
"""

import re


def s_or_lock(name):
    return name.startswith(("st_store_", "st_cas_", "wp_lock_drop"))


class Op:
    def __init__(self, name, params, code, ret="void", post=None, makes=None, dies=(), tags=(), rets=None,
                 noexcept=True, pure=False, promote=None, release_last=False, touches_obj=False, content="C13", types=None, fams="TLA",
                 group="", shapes=None):
        self.name = name
        self.params = params      # list of (kind, var, ctype)
        self.code = code
        self.ret = ret
        self.post = post or (lambda S: {})
        self.makes = makes or {}  # var -> (kind, ctype): handle constructed in raw memory
        self.dies = dies
        self.rets = rets          # S -> expected return value
        self.noexcept = noexcept
        self.pure = pure
        self.promote = promote    # (result var, weak source)
        self.release_last = release_last
        self.touches_obj = touches_obj
        self.content = content
        self.fams = fams
        self.group = group
        self.shapes = shapes
        self.tags = tags
        # operands which are only read: others may do the same with them at the same time
        self.const = tuple(v for k, v, t in params if k in ("SP", "WP") and v not in dies and (
            pure or "swap" not in name and (v != "a" or makes or s_or_lock(name)) and v in ("a", "b") and "std::move(%s)" % v not in code and
            re.search(r"static_cast<const [^;]*?&>\(%s\)|\b%s\.(lock|expired|use_count|owner)\b|[(, ]%s[,)]" % (v, v, v), code)))

    def source(self):
        ps = []
        for kind, var, t in self.params:
            if kind == "raw":
                ps.append("void* " + var)
            elif kind == "SP":
                ps.append("SP<%s>& %s" % (t, var))
            elif kind == "WP":
                ps.append("WP<%s>& %s" % (t, var))
            elif kind == "ST":
                ps.append("ST<%s>& %s" % (t, var))
            elif kind == "ptr":
                ps.append("%s %s" % (t, var))
            elif kind == "obj":
                ps.append("%s& %s" % (t, var))
            elif kind == "val":
                ps.append("%s %s" % (t, var))
            else:
                raise ValueError(kind)
        return "W %s %s(%s) { %s }\n" % (self.ret, self.name, ", ".join(ps), self.code)


def mangle(t):
    return t.replace("const ", "c").replace("[]", "s").replace("*", "p").replace(" ", "")


OPS = []


def op(name, *a, **k):
    o = Op(name, *a, **k)
    OPS.append(o)
    return o


E = (0, 0)


def elem(t):
    return t[:-2] if t.endswith("[]") else t


def build_ops():
    OPS.clear()
    # ---- shared pointers of one type
    for T in ["A", "void", "const A", "A[]", "V", "EF"]:
        m = mangle(T)
        SP = "SP<%s>" % T
        WP = "WP<%s>" % T
        spd = {"d": ("SP", T)}
        wpd = {"d": ("WP", T)}
        op("sp_default_" + m, [("raw", "d", T)], "::new(d) %s();" % SP, post=lambda S: {"d": E}, makes=spd, group="strong")
        op("sp_null_" + m, [("raw", "d", T)], "::new(d) %s(nullptr);" % SP, post=lambda S: {"d": E}, makes=spd, group="strong")
        op("sp_copy_" + m, [("raw", "d", T), ("SP", "a", T)], "::new(d) %s(static_cast<const %s&>(a));" % (SP, SP),
           post=lambda S: {"d": S["a"]}, makes=spd, group="strong")
        op("sp_move_" + m, [("raw", "d", T), ("SP", "a", T)], "::new(d) %s(std::move(a));" % SP,
           post=lambda S: {"d": S["a"], "a": E}, makes=spd, group="strong")
        op("sp_copy_assign_" + m, [("SP", "a", T), ("SP", "b", T)], "a = static_cast<const %s&>(b);" % SP,
           post=lambda S: {"a": S["b"]}, release_last=True, group="strong")
        op("sp_move_assign_" + m, [("SP", "a", T), ("SP", "b", T)], "a = std::move(b);",
           post=lambda S: {} if S.same("a", "b") else {"a": S["b"], "b": E}, release_last=True, group="strong")
        op("sp_assign_null_" + m, [("SP", "a", T)], "a = nullptr;", post=lambda S: {"a": E}, release_last=True, group="strong")
        op("sp_dtor_" + m, [("SP", "a", T)], "a.~basic_shared_ptr();", dies=("a",), group="strong")
        op("sp_reset_" + m, [("SP", "a", T)], "a.reset();", post=lambda S: {"a": E}, release_last=True, group="strong")
        op("sp_reset_null_" + m, [("SP", "a", T)], "a.reset(nullptr);", post=lambda S: {"a": E}, release_last=True, group="strong")
        op("sp_swap_" + m, [("SP", "a", T), ("SP", "b", T)], "a.swap(b);", post=lambda S: {"a": S["b"], "b": S["a"]}, group="strong")
        op("sp_stdswap_" + m, [("SP", "a", T), ("SP", "b", T)], "using std::swap; swap(a, b);", post=lambda S: {"a": S["b"], "b": S["a"]}, group="strong")
        # queries
        q = dict(pure=True, group="query")
        op("sp_get_" + m, [("SP", "a", T)], "return (const void*)a.get();", ret="const void*", rets=lambda S: S["a"][1], **q)
        op("sp_print_" + m, [("SP", "a", T)], "alignas(16) char buf[512]; std::ostream& os = *reinterpret_cast<std::ostream*>(buf); return &(os << static_cast<const SP<%s>&>(a)) == &os ? ev_printed() : nullptr;" % T,
           ret="const void*", rets=lambda S: S["a"][1], pure=True, group="query", content="C30", noexcept=False)
        op("sp_owner_" + m, [("SP", "a", T)], "return a.owner();", ret="const void*", rets=lambda S: S["a"][0], content="C15", **q)
        op("sp_towner_" + m, [("SP", "a", T)], "return (const void*)a.t_owner();", ret="const void*", rets=lambda S: S["a"][0], content="C15", **q)
        op("sp_bool_" + m, [("SP", "a", T)], "return static_cast<bool>(a);", ret="bool", rets=lambda S: int(S["a"][1] != 0), content="C15", **q)
        op("sp_use_count_" + m, [("SP", "a", T)], "return a.use_count();", ret="long", rets=lambda S: ("count", S["a"][0]), content="C15", **q)
        op("sp_no_owner_" + m, [("SP", "a", T)], "return no_owner(a);", ret="bool", rets=lambda S: int(S["a"][0] == 0), content="C15", **q)
        if T != "A[]":
            op("sp_arrow_" + m, [("SP", "a", T)], "return (const void*)a.operator->();", ret="const void*", rets=lambda S: S["a"][1], **q)
        if T not in ("void",):
            ad = "(const void*)std::addressof(%s)"
            if T != "A[]":
                op("sp_deref_" + m, [("SP", "a", T)], "return " + ad % "*a" + ";", ret="const void*", rets=lambda S: S["a"][1],
                   shapes=lambda S: S["a"][1] != 0, **q)
            op("sp_index_" + m, [("SP", "a", T)], "return " + ad % "a[2]" + ";", ret="const void*",
               rets=(lambda S: ("P", S["a"][1][1], S["a"][1][2] + 2 * S.sizeof(S.optype))), shapes=lambda S: S["a"][1] != 0, **q).optype = elem(T)
            if T in ("A", "A[]"):
                op("sp_index_far_" + m, [("SP", "a", T)], "return " + ad % "a[0x500000003]" + ";", ret="const void*",
                   rets=(lambda S: ("P", S["a"][1][1], S["a"][1][2] + 0x500000003 * S.sizeof(S.optype))), shapes=lambda S: S["a"][1] != 0, **q).optype = elem(T)
        # ---- weak pointers of one type
        op("wp_default_" + m, [("raw", "d", T)], "::new(d) %s();" % WP, post=lambda S: {"d": E}, makes=wpd, group="weak")
        op("wp_copy_" + m, [("raw", "d", T), ("WP", "a", T)], "::new(d) %s(static_cast<const %s&>(a));" % (WP, WP),
           post=lambda S: {"d": S["a"]}, makes=wpd, group="weak")
        op("wp_move_" + m, [("raw", "d", T), ("WP", "a", T)], "::new(d) %s(std::move(a));" % WP,
           post=lambda S: {"d": S["a"], "a": E}, makes=wpd, group="weak")
        op("wp_copy_assign_" + m, [("WP", "a", T), ("WP", "b", T)], "a = static_cast<const %s&>(b);" % WP,
           post=lambda S: {"a": S["b"]}, group="weak")
        op("wp_move_assign_" + m, [("WP", "a", T), ("WP", "b", T)], "a = std::move(b);",
           post=lambda S: {} if S.same("a", "b") else {"a": S["b"], "b": E}, group="weak")
        op("wp_dtor_" + m, [("WP", "a", T)], "a.~basic_weak_ptr();", dies=("a",), group="weak")
        op("wp_reset_" + m, [("WP", "a", T)], "a.reset();", post=lambda S: {"a": E}, group="weak")
        op("wp_swap_" + m, [("WP", "a", T), ("WP", "b", T)], "a.swap(b);", post=lambda S: {"a": S["b"], "b": S["a"]}, group="weak")
        op("wp_from_sp_" + m, [("raw", "d", T), ("SP", "a", T)], "::new(d) %s(static_cast<const %s&>(a));" % (WP, SP),
           post=lambda S: {"d": S["a"]}, makes=wpd, group="weak")
        op("wp_assign_sp_" + m, [("WP", "a", T), ("SP", "b", T)], "a = static_cast<const %s&>(b);" % SP,
           post=lambda S: {"a": S["b"]}, group="weak")
        op("wp_lock_" + m, [("raw", "d", T), ("WP", "a", T)], "::new(d) %s(a.lock());" % SP, makes=spd,
           promote=("d", "a"), group="weak")
        # promoted, then dropped again: nothing may change
        op("wp_lock_drop_" + m, [("WP", "a", T)], "{ auto s = a.lock(); } ", group="weak")
        op("wp_use_count_" + m, [("WP", "a", T)], "return a.use_count();", ret="long", rets=lambda S: ("count", S["a"][0]), content="C15", **q)
        op("wp_expired_" + m, [("WP", "a", T)], "return a.expired();", ret="bool", rets=lambda S: ("countzero", S["a"][0]), content="C15", **q)
        op("wp_bool_" + m, [("WP", "a", T)], "return static_cast<bool>(a);", ret="bool", rets=lambda S: int(S["a"][0] != 0), content="C15", **q)
        op("wp_owner_" + m, [("WP", "a", T)], "return a.owner();", ret="const void*", rets=lambda S: S["a"][0], content="C15", **q)
        op("wp_towner_" + m, [("WP", "a", T)], "return (const void*)a.t_owner();", ret="const void*", rets=lambda S: S["a"][0], content="C15", **q)
        op("wp_no_owner_" + m, [("WP", "a", T)], "return no_owner(a);", ret="bool", rets=lambda S: int(S["a"][0] == 0), content="C15", **q)

    # ---- explicit weak pointer from a pair (used by shared-from)
    op("wp_pair_A", [("raw", "d", "A"), ("SP", "a", "A")],
       "::new(d) WP<A>(PAIR<A>(const_cast<CB*>(a.t_owner()), a.get()));", post=lambda S: {"d": S["a"]}, makes={"d": ("WP", "A")}, group="weak")

    # ---- conversions U -> T
    for U, T in [("D", "B2"), ("VD", "V"), ("A", "void"), ("A", "const A"), ("ND", "N2"), ("ND", "const N2"), ("A[]", "const A[]"), ("VD", "const void"), ("EFD", "EF")]:
        m = mangle(U) + "_" + mangle(T)
        SP, SU = "SP<%s>" % T, "SP<%s>" % U
        WP, WU = "WP<%s>" % T, "WP<%s>" % U
        spd = {"d": ("SP", T)}
        wpd = {"d": ("WP", T)}

        def up(S, v, U=U, T=T):
            return (S[v][0], S.up(U, T, S[v][1]))
        op("sp_conv_copy_" + m, [("raw", "d", T), ("SP", "a", U)], "::new(d) %s(static_cast<const %s&>(a));" % (SP, SU),
           post=lambda S, up=up: {"d": up(S, "a")}, makes=spd, group="strong")
        op("sp_conv_move_" + m, [("raw", "d", T), ("SP", "a", U)], "::new(d) %s(std::move(a));" % SP,
           post=lambda S, up=up: {"d": up(S, "a"), "a": E}, makes=spd, group="strong")
        op("sp_conv_copy_assign_" + m, [("SP", "a", T), ("SP", "b", U)], "a = static_cast<const %s&>(b);" % SU,
           post=lambda S, up=up: {"a": up(S, "b")}, release_last=True, group="strong")
        op("sp_conv_move_assign_" + m, [("SP", "a", T), ("SP", "b", U)], "a = std::move(b);",
           post=lambda S, up=up: {"a": up(S, "b"), "b": E}, release_last=True, group="strong")
        op("wp_conv_copy_" + m, [("raw", "d", T), ("WP", "a", U)], "::new(d) %s(static_cast<const %s&>(a));" % (WP, WU),
           post=lambda S, up=up: {"d": ("weakconv", S["a"][0], up)}, makes=wpd, group="weak")
        op("wp_conv_move_" + m, [("raw", "d", T), ("WP", "a", U)], "::new(d) %s(std::move(a));" % WP,
           post=lambda S, up=up: {"d": ("weakconv", S["a"][0], up), "a": E}, makes=wpd, group="weak")
        op("wp_conv_copy_assign_" + m, [("WP", "a", T), ("WP", "b", U)], "a = static_cast<const %s&>(b);" % WU,
           post=lambda S, up=up: {"a": ("weakconv", S["b"][0], up)}, group="weak")
        op("wp_conv_move_assign_" + m, [("WP", "a", T), ("WP", "b", U)], "a = std::move(b);",
           post=lambda S, up=up: {"a": ("weakconv", S["b"][0], up), "b": E}, group="weak")
        op("wp_conv_from_sp_" + m, [("raw", "d", T), ("SP", "a", U)], "::new(d) %s(static_cast<const %s&>(a));" % (WP, SU),
           post=lambda S, up=up: {"d": up(S, "a")}, makes=wpd, group="weak")
        op("wp_conv_assign_sp_" + m, [("WP", "a", T), ("SP", "b", U)], "a = static_cast<const %s&>(b);" % SU,
           post=lambda S, up=up: {"a": up(S, "b")}, group="weak")

    # ---- aliasing
    for U, T in [("A", "int"), ("D", "A"), ("void", "A"), ("A", "void"), ("A", "A"), ("EF", "EF"), ("A", "A[]")]:
        m = mangle(U) + "_" + mangle(T)
        t = T.replace("[]", "") + "*"
        op("sp_alias_" + m, [("raw", "d", T), ("SP", "a", U), ("ptr", "p", t)], "::new(d) SP<%s>(a, p);" % T,
           post=lambda S: {"d": (S["a"][0], S["p"])}, makes={"d": ("SP", T)}, content="C14", group="alias")
        if T != "A[]": op("sp_make_aliased_" + m, [("raw", "d", T), ("SP", "a", U), ("ptr", "p", t)], "::new(d) SP<%s>(make_aliased(static_cast<const SP<%s>&>(a), p));" % (T, U),
           post=lambda S: {"d": (S["a"][0], S["p"]) if S["a"][0] else E}, makes={"d": ("SP", T)}, content="C14", group="alias")
        op("wp_alias_sp_" + m, [("raw", "d", T), ("SP", "a", U), ("ptr", "p", t)], "::new(d) WP<%s>(static_cast<const SP<%s>&>(a), p);" % (T, U),
           post=lambda S: {"d": (S["a"][0], S["p"]) if S["a"][0] else E}, makes={"d": ("WP", T)}, content="C14", group="alias")
        op("wp_alias_wp_" + m, [("raw", "d", T), ("WP", "a", U), ("ptr", "p", t)], "::new(d) WP<%s>(static_cast<const WP<%s>&>(a), p);" % (T, U),
           post=lambda S: {"d": (S["a"][0], S["p"]) if S["a"][0] else E}, makes={"d": ("WP", T)}, content="C14", group="alias")
    # assigning an alias of itself into a pointer
    op("sp_alias_self_assign", [("SP", "a", "A"), ("ptr", "p", "A*")], "a = SP<A>(a, p);",
       post=lambda S: {"a": (S["a"][0], S["p"])}, release_last=True, content="C14", group="alias")

    # ---- casts
    def cast(kind, T, U, expect, m):
        op("sp_%s_cast_%s" % (kind, m), [("raw", "d", T), ("SP", "a", U)],
           "::new(d) SP<%s>(%s_pointer_cast<%s>(static_cast<const SP<%s>&>(a)));" % (T, kind, T, U),
           post=expect, makes={"d": ("SP", T)}, content="C14", group="cast")

    def c(ref, U, T):
        return lambda S: {"d": (S["a"][0], S.ref(ref, S["a"][1])) if S["a"][0] else E}
    cast("static", "D", "B2", c("down_B2_D", "B2", "D"), "B2_D")
    cast("static", "B2", "D", c("up_D_B2", "D", "B2"), "D_B2")
    cast("static", "A", "void", lambda S: {"d": S["a"] if S["a"][0] else E}, "void_A")
    cast("static", "ND", "N2", c("down_N2_ND", "N2", "ND"), "N2_ND")
    cast("const", "A", "const A", lambda S: {"d": S["a"] if S["a"][0] else E}, "cA_A")
    cast("const", "A[]", "const A[]", lambda S: {"d": S["a"] if S["a"][0] else E}, "cAa_Aa")
    cast("static", "A[]", "void", lambda S: {"d": S["a"] if S["a"][0] else E}, "void_Aa")
    cast("reinterpret", "A[]", "A", lambda S: {"d": S["a"] if S["a"][0] else E}, "A_Aa")
    cast("reinterpret", "Pod", "A", lambda S: {"d": S["a"] if S["a"][0] else E}, "A_Pod")
    cast("dynamic", "D", "B1", lambda S: {"d": ("dyn", S["a"], "D")}, "B1_D")
    cast("dynamic", "B2", "B1", lambda S: {"d": ("dyn", S["a"], "B2")}, "B1_B2")
    cast("dynamic", "B2", "D", lambda S: {"d": (S["a"][0], S.ref("up_D_B2", S["a"][1])) if S["a"][0] and S["a"][1] else E}, "D_B2")
    cast("dynamic", "V", "B1", lambda S: {"d": ("dyn", S["a"], "V")}, "B1_V")
    # casts of a temporary
    op("sp_static_cast_rv", [("raw", "d", "void"), ("SP", "a", "A")], "::new(d) SP<void>(static_pointer_cast<void>(SP<A>(a)));",
       post=lambda S: {"d": S["a"] if S["a"][0] else E}, makes={"d": ("SP", "void")}, content="C14", group="cast")

    # ---- comparisons and owner queries over two handles
    q = dict(pure=True, group="query", content="C15")
    for X, Y in [("SP", "SP"), ("SP", "WP"), ("WP", "SP"), ("WP", "WP")]:
        for T1, T2 in [("A", "A"), ("A", "void")]:
            m = X + Y + "_" + mangle(T1) + "_" + mangle(T2)
            ab = [(X, "a", T1), (Y, "b", T2)]
            op("q_same_owner_" + m, ab, "return same_owner(a, b);", ret="bool", rets=lambda S: int(S["a"][0] == S["b"][0]), **q)
            if not (X == "SP" and Y == "WP"):
                op("q_owner_before_" + m, ab, "return a.owner_before(b);", ret="bool", rets=lambda S: ("cmp", "ult", S["a"][0], S["b"][0]), **q)
    for T1, T2 in [("A", "A"), ("const A", "A"), ("void", "const void"), ("A[]", "A[]"), ("D", "B2"), ("N2", "ND"), ("D", "void")]:
        m = mangle(T1) + "_" + mangle(T2)
        ab = [("SP", "a", T1), ("SP", "b", T2)]
        for nm, o, ex in [("eq", "==", ("eq", 0, 0)), ("ne", "!=", ("eq", 0, 1)), ("lt", "<", ("ult", 0, 0)), ("le", "<=", ("ult", 1, 1)),
                          ("gt", ">", ("ult", 1, 0)), ("ge", ">=", ("ult", 0, 1))]:
            def f(S, ex=ex, T1=T1, T2=T2):
                x, y = S["a"][1], S["b"][1]
                if (T1, T2) == ("D", "B2"): # the common type
                    x = S.ref("up_D_B2", x)
                elif (T1, T2) == ("N2", "ND"):
                    y = S.ref("up_ND_N2", y)
                if ex[1]:
                    x, y = y, x
                return ("cmpn" if ex[2] else "cmp", ex[0], x, y)
            op("q_%s_%s" % (nm, m), ab, "return a %s b;" % o, ret="bool", rets=f, **q)

    # ---- shared-from
    sf = dict(touches_obj=True, group="shared_from")
    for O in ["EF", "EFD", "EFT"]:
        el = "void" if O != "EFT" else "EFT"
        op("sf_this_" + O, [("raw", "d", el), ("obj", "o", O)], "::new(d) SP<%s>(o.shared_from_this());" % el,
           makes={"d": ("SP", el)}, promote=("d", "o"), content="C16", **sf)
        op("sf_cthis_" + O, [("raw", "d", "const " + el), ("obj", "o", O)], "::new(d) SP<const %s>(static_cast<const %s&>(o).shared_from_this());" % (el, O),
           makes={"d": ("SP", "const " + el)}, promote=("d", "o"), content="C16", **sf)
        op("sf_this_drop_" + O, [("obj", "o", O)], "{ auto s = o.shared_from_this(); auto t = static_cast<const %s&>(o).shared_from_this(); }" % O, content="C16", **sf)
        op("wf_this_" + O, [("raw", "d", el), ("obj", "o", O)], "::new(d) WP<%s>(o.weak_from_this());" % el,
           post=lambda S: {"d": (S["o"][0], S["o"][1])}, makes={"d": ("WP", el)}, content="C16", **sf)
        op("wf_cthis_" + O, [("raw", "d", "const " + el), ("obj", "o", O)], "::new(d) WP<const %s>(static_cast<const %s&>(o).weak_from_this());" % (el, O),
           post=lambda S: {"d": (S["o"][0], S["o"][1])}, makes={"d": ("WP", "const " + el)}, content="C16", **sf)
        if O != "EFT":
            op("sf_ptr_" + O, [("raw", "d", "int"), ("obj", "o", O), ("ptr", "p", "int*")], "::new(d) SP<int>(o.shared_from(p));",
               makes={"d": ("SP", "int")}, promote=("d", "o", "p"), content="C16", **sf)
            op("wf_ptr_" + O, [("raw", "d", "int"), ("obj", "o", O), ("ptr", "p", "int*")], "::new(d) WP<int>(o.weak_from(p));",
               post=lambda S: {"d": (S["o"][0], S["p"]) if S["o"][0] else E}, makes={"d": ("WP", "int")}, content="C16", **sf)

    # ---- atomic storage
    st = dict(group="storage", content="C24")
    for T in ["A", "void", "EF"]:
        m = mangle(T)
        S_ = "ST<%s>" % T
        op("st_load_" + m, [("raw", "d", T), ("ST", "s", T)], "::new(d) SP<%s>(static_cast<const %s&>(s).load());" % (T, S_),
           post=lambda S: {"d": S["s"]}, makes={"d": ("SP", T)}, **st)
        op("st_store_" + m, [("ST", "s", T), ("SP", "a", T)], "s.store(a);", post=lambda S: {"s": S["a"]}, **st)
        op("st_store_mv_" + m, [("ST", "s", T), ("SP", "a", T)], "s.store(std::move(a));", post=lambda S: {"s": S["a"], "a": E}, **st)
        op("st_exchange_" + m, [("raw", "d", T), ("ST", "s", T), ("SP", "a", T)], "::new(d) SP<%s>(s.exchange(a));" % T,
           post=lambda S: {"d": S["s"], "s": S["a"]}, makes={"d": ("SP", T)}, **st)
        op("st_exchange_mv_" + m, [("raw", "d", T), ("ST", "s", T), ("SP", "a", T)], "::new(d) SP<%s>(s.exchange(std::move(a)));" % T,
           post=lambda S: {"d": S["s"], "s": S["a"], "a": E}, makes={"d": ("SP", T)}, **st)
        op("st_cas_" + m, [("ST", "s", T), ("SP", "e", T), ("SP", "a", T)], "return s.compare_exchange(e, a);", ret="bool",
           rets=lambda S: int(S["s"][1] == S["e"][1]),
           post=lambda S: {"s": S["a"]} if S["s"][1] == S["e"][1] else {"e": S["s"]}, **st)
        op("st_cas_mv_" + m, [("ST", "s", T), ("SP", "e", T), ("SP", "a", T)], "return s.compare_exchange(e, std::move(a));", ret="bool",
           rets=lambda S: int(S["s"][1] == S["e"][1]),
           post=lambda S: {"s": S["a"], "a": E} if S["s"][1] == S["e"][1] else {"e": S["s"], "a": E}, **st)
        op("st_ctor_" + m, [("raw", "d", T)], "::new(d) %s();" % S_, post=lambda S: {"d": E}, makes={"d": ("ST", T)}, group="storage_life", content="C24")
        op("st_ctor_ptr_" + m, [("raw", "d", T), ("SP", "a", T)], "::new(d) %s(a);" % S_, post=lambda S: {"d": S["a"]}, makes={"d": ("ST", T)}, group="storage_life", content="C24")
        op("st_ctor_ptr_mv_" + m, [("raw", "d", T), ("SP", "a", T)], "::new(d) %s(std::move(a));" % S_, post=lambda S: {"d": S["a"], "a": E}, makes={"d": ("ST", T)}, group="storage_life", content="C24")
        op("st_dtor_" + m, [("ST", "s", T)], "s.~basic_atomic_shared_ptr_storage();", dies=("s",), group="storage_life", content="C24")
    return OPS


BUILDERS = {
    # type of the handle: [(created type, in-place?, expression), ...] one per control block kind
    "A": [("A", "SP<A>(MAKE<A>())"), ("A", "SP<A>(new A)")],
    "void": [("A", "SP<void>(MAKE<A>())"), ("A", "SP<void>(new A)")],
    "const void": [("A", "SP<const void>(MAKE<A>())"), ("A", "SP<const void>(new A)")],
    "const A": [("A", "SP<const A>(MAKE<A>())"), ("A", "SP<const A>(new A)")],
    "A[]": [("A", "SP<A[]>(new A[1])"), ("A", "SP<A[]>(new A[1])")],
    "const A[]": [("A", "SP<const A[]>(SP<A[]>(new A[1]))"), ("A", "SP<const A[]>(SP<A[]>(new A[1]))")],
    "D": [("D", "SP<D>(MAKE<D>())"), ("D", "SP<D>(new D)")],
    "B1": [("D", "SP<B1>(MAKE<D>())"), ("D", "SP<B1>(static_cast<B1*>(new D))")],
    "B2": [("D", "SP<B2>(MAKE<D>())"), ("D", "SP<B2>(static_cast<B2*>(new D))")],
    "V": [("VD", "SP<V>(MAKE<VD>())"), ("VD", "SP<V>(static_cast<V*>(new VD))")],
    "VD": [("VD", "SP<VD>(MAKE<VD>())"), ("VD", "SP<VD>(new VD)")],
    "ND": [("ND", "SP<ND>(MAKE<ND>())"), ("ND", "SP<ND>(new ND)")],
    "N2": [("ND", "SP<N2>(MAKE<ND>())"), ("ND", "SP<N2>(SP<ND>(new ND))")],
    "const N2": [("ND", "SP<const N2>(MAKE<ND>())"), ("ND", "SP<const N2>(SP<ND>(new ND))")],
    "EF": [("EF", "SP<EF>(MAKE<EF>())"), ("EF", "SP<EF>(new EF)")],
    "EFT": [("EFT", "SP<EFT>(MAKE<EFT>())"), ("EFT", "SP<EFT>(new EFT)")],
    "EFD": [("EFD", "SP<EFD>(MAKE<EFD>())"), ("EFD", "SP<EFD>(new EFD)")],
    "Pod": [("Pod", "SP<Pod>(MAKE<Pod>())"), ("Pod", "SP<Pod>(new Pod)")],
    "int": [("int", "SP<int>(MAKE<int>(1))"), ("int", "SP<int>(new int)")],
}

UPS = [("D", "B2"), ("D", "B1"), ("VD", "V"), ("A", "void"), ("A", "const A"), ("ND", "N2"), ("ND", "const N2"), ("A", "A"), ("VD", "const void"), ("EFD", "EF")]


def source():
    """The witness translation unit of one family (select with -DFAM_x)."""
    ops = build_ops()
    s = '#include "family.hpp"\n'
    s += "struct NB { NB(); NB(const NB&) = delete; };\n"
    for T, bs in BUILDERS.items():
        for i, (ct, ex) in enumerate(bs):
            s += "W void b_%s_%d(void* d) { ::new(d) SP<%s>(%s); }\n" % (mangle(T), i, T, ex)
        s += "W void w_%s(void* d, SP<%s>& a) { ::new(d) WP<%s>(a); }\n" % (mangle(T), T, T)
        s += "W const void* owner_%s(SP<%s>& a) { return a.owner(); }\n" % (mangle(T), T)
        s += "W long count_%s(SP<%s>& a) { return a.use_count(); }\n" % (mangle(T), T)
    for T in ["A", "void", "EF"]:
        s += "W void bst_%s(void* d, SP<%s>& a) { ::new(d) ST<%s>(a); }\n" % (mangle(T), T, T)
        s += "W unsigned long sz_ST_%s() { return sizeof(ST<%s>); }\n" % (mangle(T), T)
    for n in ["A", "B1", "B2", "D", "N1", "N2", "ND", "V", "VD", "EF", "EFT", "EFD", "Pod", "int", "SP<A>", "WP<A>"]:
        s += "W unsigned long sz_%s() { return sizeof(%s); }\n" % (mangle(n).replace("<", "").replace(">", ""), n)
    for n in ["EF", "EFT", "EFD", "VD"]:
        s += "W void mk_%s(void* p) { ::new(p) %s(); }\n" % (n, n)
    for U, T in UPS:
        s += "W const void* up_%s_%s(%s* p) { %s* q = p; return q; }\n" % (mangle(U), mangle(T), U, T)
    s += "W const void* down_B2_D(B2* p) { return static_cast<D*>(p); }\n"
    s += "W const void* down_N2_ND(N2* p) { return static_cast<ND*>(p); }\n"
    for o in ops:
        s += o.source()
    return s, ops
