"""Models of the standard library operations the code base uses, and summaries of
the few library functions that are verified on their own (Signal::push_back and
the Signal constructors, synchronize, the monotonic wedge)."""
from fractions import Fraction as Fr
from terms import R, elem, atom, ZERO, ONE_R, INF, NAN, IK
from model import ptype, strip_cvref, INTS, REALS
from values import *

SIGNAL = "signal_tl::signal::Signal"
SAMPLE = "signal_tl::signal::Sample"

FUNCTORS = {"std::less", "std::less_equal", "std::greater", "std::greater_equal", "std::negate", "std::equal_to",
            "std::not_equal_to", "std::plus", "std::minus", "std::multiplies", "std::identity", "std::logical_and",
            "std::logical_or", "std::logical_not"}
FOPS = {"std::less": "<", "std::less_equal": "<=", "std::greater": ">", "std::greater_equal": ">=",
        "std::equal_to": "==", "std::not_equal_to": "!=", "std::plus": "+", "std::minus": "-", "std::multiplies": "*"}

EXC_BASES = {
    "std::invalid_argument": ("std::logic_error", "std::exception"),
    "std::domain_error": ("std::logic_error", "std::exception"),
    "std::length_error": ("std::logic_error", "std::exception"),
    "std::out_of_range": ("std::logic_error", "std::exception"),
    "std::logic_error": ("std::exception",),
    "std::runtime_error": ("std::exception",),
    "std::range_error": ("std::runtime_error", "std::exception"),
    "std::bad_variant_access": ("std::exception",),
    "std::bad_optional_access": ("std::exception",),
    "std::exception": (),
}


def bases(eng, t):
    out, todo = [], [strip_cvref(t)]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.append(x)
        todo += list(EXC_BASES.get(x, ()))
        r = eng.prog.records.get(x)
        if r:
            todo += [strip_cvref(b) if isinstance(b, str) else strip_cvref(b.get("t", "")) for b in r.get("bases", [])]
        if x.startswith("tao::pegtl"):
            todo.append("std::runtime_error")
    return out


def catches(eng, htype, exc):
    if htype == "...":
        return True
    return strip_cvref(htype) in bases(eng, exc.ty)


def is_exc_type(eng, t):
    return "std::exception" in bases(eng, t)


# ---- helpers -----------------------------------------------------------------
def sig_field(eng):
    for n, t in eng.field_types(SIGNAL) or []:
        if ptype(t)[0] in ("std::vector", "std::deque"):
            return n
    return "samples"


def slice_(eng, st, seq, lo, hi):
    """Segments of seq[lo, hi) or None."""
    n = eng.seq_len(seq)
    if (lo - hi).const() == 0:
        return ()
    if lo.const() == 0 and (hi - n).const() == 0:
        if seq.over:
            seq2 = bake(eng, st, seq)
            return None if seq2 is None else seq2.segs
        return seq.segs
    if seq.over:
        s2 = bake(eng, st, seq)
        if s2 is None:
            return None
        seq = s2
    f = st.facts
    out = []
    pos = ZERO
    for s in seq.segs:
        ln = eng.seg_len(s)
        end = pos + ln
        if f.entails("<=", end - lo) or f.entails("<=", hi - pos):
            pos = end
            continue
        a_in = f.entails("<=", lo - pos)
        b_in = f.entails("<=", end - hi)
        if a_in and b_in:
            out.append(s)
        else:
            a = ZERO if a_in else (lo - pos if f.entails("<=", pos - lo) else None)
            b = ln if b_in else (hi - pos if f.entails("<=", hi - end) else None)
            if a is None or b is None:
                return None
            if s[0] == "base":
                out.append(("splice", s[1], a, b))
            elif s[0] == "splice":
                out.append(("splice", s[1], s[2] + a, s[2] + b))
            elif s[0] == "rev":
                x = slice_(eng, st, Seq(s[1], seq.et), ln - b, ln - a)
                if x is None:
                    return None
                out.append(("rev", x))
            else:
                return None
        pos = end
    return tuple(out)


def bake(eng, st, seq):
    """Fold element overlays into item segments where possible."""
    segs = list(seq.segs)
    rest = []
    for oi, opath, oval in seq.over:
        pos = ZERO
        done = False
        for n, s in enumerate(segs):
            if s[0] == "item" and (oi - pos).const() == 0:
                segs[n] = ("item", eng.put(st, s[1], opath, oval))
                done = True
                break
            pos = pos + eng.seg_len(s)
        if not done:
            return None
    return Seq(segs, seq.et, (), seq.kind)


def range_segs(eng, st, b, e):
    if not (isinstance(b, It) and isinstance(e, It)):
        return None
    c = eng.read(st, b.ref)
    if isinstance(c, Init):
        c = Seq([("item", x) for x in c.vals], "")
    if not isinstance(c, Seq):
        return None
    if b.rev:
        x = slice_(eng, st, c, e.pos + ONE_R, b.pos + ONE_R)
        return None if x is None else (("rev", x),)
    return slice_(eng, st, c, b.pos, e.pos)


def invalid(eng, st, why, node=None):
    st.exact = False
    return [(st, eng.top(st, why, node))]


def bool_of(eng, st, rs):
    """[(state, value)] -> [(state, bool)]"""
    out = []
    for s, v in rs:
        out += eng.truth(s, eng.read(s, v))
    return out


def callv(eng, st, f, args, node, atypes=None):
    v = eng.read(st, f)
    if isinstance(v, Struct) and isinstance(f, Ref):
        c = eng.prog.call_ops(v.cls, st.fn.tu if st.fn else None)
        if len(c) == 1:
            return eng.call_fun(st, c[0], f, args, node)
    return eng.call_value(st, v, args, node, atypes)


# ---- bounds / search -----------------------------------------------------------
def bound(eng, st, args, node, upper):
    b, e = eng.read(st, args[0]), eng.read(st, args[1])
    val = args[2]
    comp = args[3] if len(args) > 3 else None
    if not (isinstance(b, It) and isinstance(e, It)) or b.rev:
        return invalid(eng, st, "bound over unknown range")
    c = eng.read(st, b.ref)
    if not isinstance(c, Seq):
        return invalid(eng, st, "bound over unknown container")
    q = R.a(atom(eng.fresh("q"), "i"))
    st.facts.add("<=", b.pos - q)
    st.facts.add("<=", q - e.pos)
    whole = (e.pos - eng.seq_len(c)).const() == 0 and b.pos.const() == 0 and len(c.segs) == 1 and c.segs[0][0] == "base" \
        and eng.is_sorted(c.segs[0][1]) and not c.over

    def test(s, idx, want):
        """States in which the comparison has the wanted outcome at idx."""
        lits = s.lits
        ref = b.ref + ("i", idx)
        cells = dict(s.cells)
        if comp is not None:
            rs = callv(eng, s, comp, [val, ref] if upper else [ref, val], node)
        else:
            x, y = (val, ref) if upper else (ref, val)
            rs = functor(eng, s, Functor("std::less"), [x, y], node)
        out = []
        for s2, r in bool_of(eng, s, rs):
            s2.lits = lits
            if r == want and not s2.facts.unsat():
                out.append(s2)
        return out
    # lower: elements before q satisfy comp(elem, val), element q does not
    # upper: elements before q satisfy !comp(val, elem), element q satisfies it
    before, at = (False, True) if upper else (True, False)
    rec = eng.rec
    eng.rec = False
    try:
        cur = [(st, None)]
        if whole:
            cur = [s for s in test(st, q - ONE_R, before)]
            cur = [s2 for s in cur for s2 in test(s, q, at)]
        else:
            nx = []
            for s, first in eng.cmp(st, "==", q, b.pos):
                nx += [s] if first else test(s, q - ONE_R, before)
            cur = []
            for s in nx:
                for s2, last in eng.cmp(s, "==", q, e.pos):
                    cur += [s2] if last else test(s2, q, at)
    finally:
        eng.rec = rec
    return [(s, It(b.ref, q)) for s in cur]


# ---- free functions --------------------------------------------------------------
def call(eng, st, e):
    out = []
    name = e.get("fn", "")
    if name in ("std::visit",):
        pass
    for s, args in eng.evs(st, e["a"]):
        out += call_named(eng, s, name, args, e)
    return out


def short(name):
    if "(" in name:
        name = name[:name.index("(")]
    if name.startswith("std::") or name.startswith("fmt::") or name.startswith("__gnu_cxx::"):
        b = name.split("<")[0]
        if b.startswith("std::numeric_limits"):
            return name
        return b.replace("std::__cxx11::", "std::").replace("fmt::v9::", "fmt::").replace("fmt::v8::", "fmt::")
    return name


def call_named(eng, st, name, args, node):
    n = short(name)
    rd = lambda i: eng.read(st, args[i])
    h = FN.get(n)
    if h is not None:
        return h(eng, st, args, node)
    if n in ("std::move", "std::forward", "std::as_const", "std::addressof", "std::cref", "std::ref", "std::move_if_noexcept"):
        if n == "std::addressof":
            r = args[0] if isinstance(args[0], Ref) else eng.alloc(st, args[0], "tmp")
            return [(st, Ptr(r, "raw"))]
        if node.get("moved") and isinstance(args[0], Ref):
            eng.event(st, "moved", node, ref=args[0])
            v = eng.read(st, args[0])
            if isinstance(v, (Seq, MapV)) and args[0].root[0] != "unk":
                # a container whose contents were moved to another one is empty
                tmp = eng.alloc(st, v, "tmp")
                empty = Seq((), v.et, (), v.kind) if isinstance(v, Seq) else MapV(None, (), v.kt, v.vt)
                r = args[0]
                st.cells[r.root] = eng.put(st, eng.cell(st, r.root), r.path, empty) if r.path else empty
                return [(st, tmp)]
        return [(st, args[0])]
    if n in ("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::empty", "std::data",
             "std::rbegin", "std::rend", "std::crbegin", "std::crend", "std::ssize"):
        return method(eng, st, args[0], n[5:], [], node)
    if n.endswith("abs") and n.startswith("std::"):
        a = rd(0)
        if isinstance(a, R):
            return [(s, a if b else -a) for s, b in eng.cmp(st, "<=", ZERO, a)]
    return extern(eng, st, name, args, node)


def extern(eng, st, name, args, node):
    n = short(name)
    t = node.get("t", "void")
    if n.startswith("std::numeric_limits"):
        if n.endswith("infinity"):
            return [(st, INF)]
        if n.endswith("NaN"):
            return [(st, NAN)]
        tt = (node.get("cls") or n)
        m = "max" if n.endswith("::max") else "lowest" if n.endswith("::lowest") else "min" if n.endswith("::min") else n
        return [(st, R.a(atom(("limit", tt, m), "r")))]
    eng.event(st, "extern", node, name=name)
    clobber(eng, st, n, args, node)
    if strip_cvref(t) == "void":
        return [(st, None)]
    st.exact = False
    return [(st, eng.top(st, "call " + n))]


READ_ONLY = {"std::" + x for x in (
    "find find_if find_if_not find_first_of find_end adjacent_find search count count_if mismatch equal is_sorted is_sorted_until "
    "lexicographical_compare binary_search equal_range inner_product reduce transform_reduce minmax minmax_element is_permutation "
    "is_partitioned partition_point includes all_of any_of none_of for_each_n").split()}
IN_PLACE = {"std::" + x for x in (
    "sort stable_sort partial_sort nth_element reverse rotate unique remove remove_if fill fill_n generate generate_n replace "
    "replace_if shuffle iota swap_ranges partition stable_partition inplace_merge make_heap sort_heap push_heap pop_heap").split()}


def clobber(eng, st, name, args, node):
    """A library function without a model may change what it can reach through its parameters."""
    if name in READ_ONLY:
        return
    pts = node.get("pt") or ()
    for k, x in enumerate(args):
        pt = pts[k] if k < len(pts) else ""
        if isinstance(x, Ref) and pt.endswith("&") and not pt.endswith("&&") and not pt.startswith("const "):
            v = eng.read(st, x)
            if isinstance(v, It) and isinstance(v.ref, Ref):
                x = v.ref
            elif isinstance(v, Top) and v.why.startswith("uninit"):
                pass
            eng.write(st, x, Top("changed by " + name), node)
            continue
        v = eng.read(st, x) if isinstance(x, Ref) else x
        if isinstance(v, It) and isinstance(v.ref, Ref) and "const" not in ptype(pt)[0] and "iterator" in pt and "const " not in pt:
            if name in IN_PLACE:
                eng.event(st, "seqop", node, ref=v.ref, name=name, seq=eng.read(st, v.ref))
            was = st.exact
            eng.write(st, v.ref, Top("changed by " + name), None)
            st.exact = was
        elif isinstance(v, Ptr) and v.ref is not None and pt.endswith("*") and not pt.startswith("const "):
            eng.write(st, v.ref, Top("changed by " + name), node)


def f_peg(which):
    def h(eng, st, args, node):
        import peg
        return (peg.f_parse if which == "parse" else peg.f_match)(eng, st, args, node)
    return h


def f_prevnext(sign):
    def h(eng, st, args, node):
        it = eng.read(st, args[0])
        n = eng.read(st, args[1]) if len(args) > 1 else ONE_R
        if not isinstance(it, It) or not isinstance(n, R):
            return invalid(eng, st, "iterator step")
        return [(st, eng.it_add(st, it, n if sign > 0 else -n, node))]
    return h


def f_advance(eng, st, args, node):
    it, n = eng.read(st, args[0]), eng.read(st, args[1])
    if isinstance(it, It) and isinstance(n, R):
        eng.write(st, args[0], eng.it_add(st, it, n, node), node)
    else:
        st.exact = False
        eng.write(st, args[0], eng.top(st, "advance"), node)
    return [(st, None)]


def f_distance(eng, st, args, node):
    a, b = eng.read(st, args[0]), eng.read(st, args[1])
    if isinstance(a, It) and isinstance(b, It):
        return [(st, a.pos - b.pos if a.rev else b.pos - a.pos)]
    return invalid(eng, st, "distance")


def f_minmax(mx):
    def h(eng, st, args, node):
        if len(args) == 1:
            v = eng.read(st, args[0])
            if not isinstance(v, Init) or not v.vals:
                return invalid(eng, st, "min/max of list")
            cur = [(st, v.vals[0])]
            for x in v.vals[1:]:
                cur = [r for s, b in cur for r in two(eng, s, b, x, node, None)]
            return cur
        comp = args[2] if len(args) > 2 else None
        return two(eng, st, args[0], args[1], node, comp)

    def two(eng, st, a, b, node, comp):
        if eng.nofork_minmax and comp is None:
            u, v = eng.read(st, a), eng.read(st, b)
            if isinstance(u, R) and isinstance(v, R) and not u.is_int() and not v.is_int() and NAN not in (u, v):
                if st.facts.entails("<=", u - v):
                    return [(st, v if mx else u)]
                if st.facts.entails("<=", v - u):
                    return [(st, u if mx else v)]
                if v.key() < u.key():
                    u, v = v, u
                m = R.a(atom(("max" if mx else "min", IK(u), IK(v)), "r", (u, v)))
                for w in (u, v):
                    st.facts.add("<=", w - m if mx else m - w)
                return [(st, m)]
        x, y = (a, b) if mx else (b, a)     # max: a<b ? b : a ; min: b<a ? b : a
        if comp is not None:
            rs = bool_of(eng, st, callv(eng, st, comp, [x, y], node))
        else:
            rs = bool_of(eng, st, functor(eng, st, Functor("std::less"), [x, y], node))
        return [(s, eng.read(s, b) if r else eng.read(s, a)) for s, r in rs]
    return h


def f_isinf(eng, st, args, node):
    a = eng.read(st, args[0])
    if isinstance(a, R):
        if a.is_int() or a.const() is not None:
            return [(st, False)]
        if a == INF or a == -INF:
            return [(st, True)]
        out = []
        for s, hi in eng.cmp(st, "==", a, INF):
            if hi:
                out.append((s, True))
            else:
                out += [(s2, lo) for s2, lo in eng.cmp(s, "==", a, -INF)]
        return out
    return [(st, eng.top(st, "isinf"))]


def f_isnan(eng, st, args, node):
    a = eng.read(st, args[0])
    if isinstance(a, R):
        if a.is_int() or a.const() is not None or a in (INF, -INF):
            return [(st, False)]
        if a == NAN:
            return [(st, True)]
        # modelled as a literal; the "yes" side holds the value NaN
        s2 = st.copy()
        s2.lits = s2.lits + ((("isnan", a, a), True),)
        st.lits = st.lits + ((("isnan", a, a), False),)
        return [(s2, True), (st, False)]
    return [(st, eng.top(st, "isnan"))]


def f_isfinite(eng, st, args, node):
    out = []
    for s, b in f_isnan(eng, st, args, node):
        if b:
            out.append((s, False))
        else:
            out += [(s2, not x) for s2, x in f_isinf(eng, s, args, node)]
    return out


def f_make_shared(kind):
    def h(eng, st, args, node):
        T = strip_cvref((node.get("ta") or ["?"])[0])
        out = []
        for s, v in make_object(eng, st, T, args, node):
            if eng.read(s, v).__class__ is Ref:
                v = eng.read(s, v)
            out.append((s, Ptr(eng.alloc(s, v, "heap"), kind)))
        return out
    return h


def argtype(eng, st, x, a):
    if isinstance(a, dict) and "t" in a:
        return strip_cvref(a["t"])
    return eng.val_type(st, x) or "?"


def ctor_candidates(eng, st, T, n):
    base = T.split("<")[0]
    nm = base.split("::")[-1]
    c = eng.prog.by_qn.get(f"{T}::{nm}", []) or eng.prog.by_qn.get(f"{base}::{nm}", [])
    seen, out = set(), []
    for F in sorted(c, key=lambda F: F.tu is not (st.fn.tu if st.fn else None)):
        k = tuple(p["ct"] for p in F.params)
        if k in seen:
            continue
        seen.add(k)
        req = sum(1 for p in F.params if not p.get("d"))
        if req <= n <= len(F.params):
            out.append(F)
    return out


def make_object(eng, st, T, args, node):
    """Construct a T from args (overload chosen by argument types)."""
    b, a = ptype(T)
    if T == SIGNAL:
        r = prim_signal(eng, st, None, None, args, node)
        if r is not None:
            return r
    if b.startswith("std::"):
        return construct_std(eng, st, T, args, node)
    an = node.get("a") or []
    at = [argtype(eng, st, x, an[i] if i < len(an) else None) for i, x in enumerate(args)]
    if len(args) == 1 and at[0] == T:
        return [(st, eng.read(st, args[0]))]
    c = ctor_candidates(eng, st, T, len(args))
    if T in eng.prog.records:
        best, bs = None, -1
        for F in c:
            if F.j.get("impl"):
                continue
            sc = 0
            for p, x in zip(F.params, at):
                if strip_cvref(p["ct"]) == x:
                    sc += 3
                elif ptype(strip_cvref(p["ct"]))[0] == ptype(x)[0]:
                    sc += 2
                elif strip_cvref(p["ct"]).startswith("std::variant") and x != "?":
                    sc += 1
            if sc > bs:
                best, bs = F, sc
        if best is not None:
            return eng.construct(st, best, T, args, node)
        if not args:
            return [(st, eng.default(T, st))]
        ft = eng.field_types(T)
        if ft and len(ft) >= len(args):
            f = {}
            for i, (nme, t) in enumerate(ft):
                f[nme] = eng.coerce(st, eng.read(st, args[i]), t, an[i] if i < len(an) else None) if i < len(args) else eng.default(t, st)
            return [(st, Struct(T, f))]
    return invalid(eng, st, "make " + T[:50])


def f_make_tuple(eng, st, args, node):
    return [(st, Struct("std::tuple", {str(i): eng.read(st, x) for i, x in enumerate(args)}))]


def f_make_pair(eng, st, args, node):
    return [(st, Struct("std::pair", {"first": eng.read(st, args[0]), "second": eng.read(st, args[1])}))]


def f_tie(eng, st, args, node):
    return [(st, Struct("std::tuple&", {str(i): Ptr(x, "raw") for i, x in enumerate(args)}))]


def variant_ref(eng, st, x):
    """argument -> (Ref to the variant, Var)"""
    r = x if isinstance(x, Ref) else eng.alloc(st, x, "tmp")
    return r, eng.read(st, r)


def want_alt(eng, v, ta):
    alts = [strip_cvref(x) for x in eng.var_alts(v)]
    if ta is None:
        return None
    t = strip_cvref(ta)
    if t.isdigit():
        return int(t)
    if t in alts:
        return alts.index(t)
    for i, x in enumerate(alts):
        if ptype(x)[0] == ptype(t)[0] and ptype(x)[1][:1] == ptype(t)[1][:1] and ptype(x)[1]:
            return i
        if ptype(x)[0] == ptype(t)[0] and not ptype(x)[1]:
            return i
    return None


def f_get_if(eng, st, args, node):
    p = eng.read(st, args[0])
    if not isinstance(p, Ptr) or p.ref is None:
        return invalid(eng, st, "get_if")
    v = eng.read(st, p.ref)
    if not isinstance(v, Var):
        return invalid(eng, st, "get_if of unknown")
    k = want_alt(eng, v, (node.get("ta") or [None])[0])
    return [(s, Ptr(p.ref + ("a", k), "raw") if i == k else NULL) for s, i in eng.var_split(st, v)]


def f_holds(eng, st, args, node):
    r, v = variant_ref(eng, st, args[0])
    if not isinstance(v, Var):
        return invalid(eng, st, "holds_alternative")
    k = want_alt(eng, v, (node.get("ta") or [None])[0])
    return [(s, i == k) for s, i in eng.var_split(st, v)]


def f_get(eng, st, args, node):
    r, v = variant_ref(eng, st, args[0])
    ta = (node.get("ta") or [None])[0]
    if isinstance(v, Var):
        k = want_alt(eng, v, ta)
        out = []
        for s, i in eng.var_split(st, v):
            if i == k:
                out.append((s, r + ("a", k)))
            else:
                eng.throw(s, Exc("std::bad_variant_access", ()), node)
        return out
    if isinstance(v, Struct) and ta is not None and str(ta).isdigit():
        keys = list(v.f)
        key = keys[int(ta)]
        if v.cls == "std::tuple&":
            return [(st, v.f[key].ref)]
        return [(st, r + key)]
    return invalid(eng, st, "get")


def f_visit(eng, st, args, node):
    if len(args) != 2:
        return invalid(eng, st, "visit of several variants")
    r, v = variant_ref(eng, st, args[1])
    if not isinstance(v, Var):
        return invalid(eng, st, "visit of unknown")
    out = []
    alts = eng.var_alts(v)
    if eng.visit_opaque is not None and v.tag is None and v.term is not None and strip_cvref(v.ty) == eng.visit_opaque and node.get("t"):
        terms = (v.term, eng.term(st, args[0]))
        return [(st, eng.sym(node["t"], ("rec", "std::visit") + terms))]
    for s, k in eng.var_split(st, v):
        out += callv(eng, s, args[0], [r + ("a", k)], node, [alts[k]])
    return out


def f_lower(eng, st, args, node):
    return bound(eng, st, args, node, False)


def f_upper(eng, st, args, node):
    return bound(eng, st, args, node, True)


def f_find_if(eng, st, args, node, want=True):
    """First position satisfying the predicate; of the elements before it only the last one's outcome is kept."""
    b, e = eng.read(st, args[0]), eng.read(st, args[1])
    if not (isinstance(b, It) and isinstance(e, It)):
        return invalid(eng, st, "find_if")
    st.exact = False
    q = R.a(atom(eng.fresh("q"), "i"))
    st.facts.add("<=", b.pos - q)
    st.facts.add("<=", q - e.pos)
    if b.rev:
        st.exact = False
        return [(st, eng.top(st, "find_if backwards"))]

    def test(s, idx, wanted):
        out = []
        for s2, r in bool_of(eng, s, callv(eng, s, args[2], [b.ref + ("i", idx)], node)):
            if r == wanted and not s2.facts.unsat():
                out.append(s2)
        return out

    nx = []
    for s, first in eng.cmp(st, "==", q, b.pos):
        nx += [s] if first else test(s, q - ONE_R, not want)
    out = []
    for s, last in [x for s in nx for x in eng.cmp(s, "==", q, e.pos)]:
        out += [(s2, It(b.ref, q, b.rev)) for s2 in ([s] if last else test(s, q, want))]
    return out


def f_find_if_not(eng, st, args, node):
    return f_find_if(eng, st, args, node, False)


def f_reverse(eng, st, args, node):
    b, e = eng.read(st, args[0]), eng.read(st, args[1])
    if isinstance(b, It) and isinstance(e, It):
        c = eng.read(st, b.ref)
        if isinstance(c, Seq) and b.ref == e.ref and not b.rev and not e.rev and (e.pos - b.pos).const() == 0:
            return [(st, None)]
        if isinstance(c, Seq) and b.pos.const() == 0 and (e.pos - eng.seq_len(c)).const() == 0 and not c.over:
            if all(s[0] == "item" for s in c.segs):
                segs = tuple(reversed(c.segs))
            elif len(c.segs) == 1 and c.segs[0][0] == "rev":
                segs = c.segs[0][1]
            else:
                segs = (("rev", c.segs),)
            eng.write(st, b.ref, Seq(segs, c.et, (), c.kind), node)
            return [(st, None)]
        if isinstance(c, Seq):
            eng.write(st, b.ref, eng.top(st, "reverse"), node)
    st.exact = False
    return [(st, None)]


def push_out(eng, st, outcell, val, node):
    """*out++ = val for an output iterator held in a cell."""
    o = eng.read(st, outcell)
    if isinstance(o, OutIt):
        return [s for s, _ in method(eng, st, o.ref, "push_back", [val], node)]
    if isinstance(o, It):
        eng.write(st, eng.it_ref(st, o, node), eng.read(st, val), node)
        eng.write(st, outcell, eng.it_add(st, o, ONE_R), node)
        return [st]
    st.exact = False
    return [st]


def f_transform(eng, st, args, node):
    b, e = eng.read(st, args[0]), eng.read(st, args[1])
    if not (isinstance(b, It) and isinstance(e, It)):
        return invalid(eng, st, "transform over unknown range")
    if len(args) == 4:
        out = eng.alloc(st, eng.read(st, args[2]), "out")
        f = args[3] if isinstance(args[3], Ref) else eng.alloc(st, args[3], "fn")

        def body(s, it):
            res = []
            for s2, v in callv(eng, s, f, [eng.it_ref(s, it, node)], node):
                for s3 in push_out(eng, s2, out, v, node):
                    res.append((s3, None))
            return res
        return [(s, eng.read(s, out) if sig is None else None) for s, sig in eng.iterate(st, b, e, node, body)]
    if len(args) == 5:
        out = eng.alloc(st, eng.read(st, args[3]), "out")
        second = eng.alloc(st, eng.read(st, args[2]), "it2")
        f = args[4] if isinstance(args[4], Ref) else eng.alloc(st, args[4], "fn")

        def body(s, it):
            res = []
            it2 = eng.read(s, second)
            if not isinstance(it2, It):
                s.exact = False
                return [(s, None)]
            for s2, v in callv(eng, s, f, [eng.it_ref(s, it, node), eng.it_ref(s, it2, node)], node):
                eng.write(s2, second, eng.it_add(s2, it2, ONE_R))
                for s3 in push_out(eng, s2, out, v, node):
                    res.append((s3, None))
            return res
        return [(s, eng.read(s, out)) for s, sig in eng.iterate(st, b, e, node, body)]
    return invalid(eng, st, "transform")


def f_copy(eng, st, args, node):
    b, e = eng.read(st, args[0]), eng.read(st, args[1])
    o = eng.read(st, args[2])
    if isinstance(o, OutIt):
        segs = range_segs(eng, st, b, e)
        c = eng.read(st, o.ref)
        if segs is not None and isinstance(c, Seq):
            eng.write(st, o.ref, Seq(c.segs + tuple(segs), c.et, c.over, c.kind), node)
            return [(st, o)]
    if not (isinstance(b, It) and isinstance(e, It)):
        return invalid(eng, st, "copy")
    out = eng.alloc(st, o, "out")

    def body(s, it):
        return [(s3, None) for s3 in push_out(eng, s, out, eng.it_ref(s, it, node), node)]
    return [(s, eng.read(s, out)) for s, sig in eng.iterate(st, b, e, node, body)]


def f_copy_if(eng, st, args, node):
    b, e = eng.read(st, args[0]), eng.read(st, args[1])
    if not (isinstance(b, It) and isinstance(e, It)):
        return invalid(eng, st, "copy_if")
    out = eng.alloc(st, eng.read(st, args[2]), "out")

    def body(s, it):
        res = []
        r = eng.it_ref(s, it, node)
        for s2, ok in bool_of(eng, s, callv(eng, s, args[3], [r], node)):
            res += [(s3, None) for s3 in push_out(eng, s2, out, r, node)] if ok else [(s2, None)]
        return res
    return [(s, eng.read(s, out)) for s, sig in eng.iterate(st, b, e, node, body)]


def f_for_each(eng, st, args, node):
    b, e = eng.read(st, args[0]), eng.read(st, args[1])
    if not (isinstance(b, It) and isinstance(e, It)):
        return invalid(eng, st, "for_each over unknown range")
    f = eng.alloc(st, eng.read(st, args[2]), "fn")

    def body(s, it):
        return [(s2, None) for s2, _ in callv(eng, s, f, [eng.it_ref(s, it, node)], node)]
    return [(s, eng.read(s, f)) for s, sig in eng.iterate(st, b, e, node, body)]


def f_accumulate(eng, st, args, node):
    b, e = eng.read(st, args[0]), eng.read(st, args[1])
    if not (isinstance(b, It) and isinstance(e, It)):
        return invalid(eng, st, "accumulate over unknown range")
    acc = eng.alloc(st, eng.read(st, args[2]), "acc")
    f = args[3] if len(args) > 3 else Functor("std::plus")
    if not isinstance(f, Ref):
        f = eng.alloc(st, f, "fn")

    def body(s, it):
        res = []
        a = eng.alloc(s, eng.read(s, acc), "tmp")
        for s2, v in callv(eng, s, f, [a, eng.it_ref(s, it, node)], node):
            eng.write(s2, acc, eng.read(s2, v))
            res.append((s2, None))
        return res
    return [(s, eng.read(s, acc)) for s, sig in eng.iterate(st, b, e, node, body)]


def f_quant(kind):
    def h(eng, st, args, node):
        b, e = eng.read(st, args[0]), eng.read(st, args[1])
        if not (isinstance(b, It) and isinstance(e, It)):
            return invalid(eng, st, kind)
        s2 = st.copy()
        s2.exact = st.exact = False
        return [(st, True), (s2, False)]
    return h


def f_swap(eng, st, args, node):
    a, b = eng.read(st, args[0]), eng.read(st, args[1])
    eng.write(st, args[0], b, node)
    eng.write(st, args[1], a, node)
    return [(st, None)]


def f_exchange(eng, st, args, node):
    a = eng.read(st, args[0])
    eng.write(st, args[0], eng.read(st, args[1]), node)
    return [(st, a)]


def f_back_inserter(eng, st, args, node):
    return [(st, OutIt(args[0]))] if isinstance(args[0], Ref) else invalid(eng, st, "back_inserter")


def strterm(v):
    return v.term if isinstance(v, Str) else ("val", repr(v)[:200])


def f_move_iterator(eng, st, args, node):
    it = eng.read(st, args[0])
    if not isinstance(it, It):
        return invalid(eng, st, "make_move_iterator")
    eng.event(st, "moved", node, ref=it.ref)
    return [(st, it)]


def f_stonum(kind, fn=None):
    def h(eng, st, args, node):
        how = fn or ("l" if kind == "i" else "d")
        s = eng.read(st, args[0])
        base = eng.read(st, args[2]) if len(args) > 2 else R.c(10)
        if isinstance(s, Str):
            if kind == "i" and isinstance(base, R) and base.const() != 10:
                return [(st, R.a(atom(("stonum-base", s.term, base.key()), kind)))]
            return [(st, R.a(atom(("stonum", s.term, how), kind)))]
        return invalid(eng, st, "string to number")
    return h


def fmt_fields(text):
    """'a{}b{1:.3f}' -> [('lit','a'), ('arg', 0, ''), ('lit','b'), ('arg', 1, '.3f')]; None if not a plain template."""
    out, i, nxt, lit = [], 0, 0, ""
    while i < len(text):
        c = text[i]
        if text[i:i + 2] in ("{{", "}}"):
            lit, i = lit + c, i + 2
            continue
        if c == "}":
            return None
        if c != "{":
            lit, i = lit + c, i + 1
            continue
        j = text.find("}", i)
        if j < 0 or "{" in text[i + 1:j]:
            return None
        idx, _, spec = text[i + 1:j].partition(":")
        if idx == "":
            idx, nxt = nxt, nxt + 1
        elif idx.isdigit():
            idx = int(idx)
        else:
            return None
        if lit:
            out.append(("lit", lit))
            lit = ""
        out.append(("arg", idx, spec))
        i = j + 1
    if lit:
        out.append(("lit", lit))
    return out


def fmt_piece(eng, st, a, spec):
    v = eng.read(st, a)
    if isinstance(v, Str):
        return ("str", v.term, spec)
    if isinstance(v, R):
        return ("num", IK(v), spec, v.is_int())
    if isinstance(v, (bool, B)):
        return ("bool", eng.term(st, a), spec)
    if isinstance(v, Opq) and v.ty == "fmt::join" and v.args and v.args[0] is not None:
        return ("join", tuple(v.args[0]), strterm(v.args[1]), spec)
    if isinstance(v, (Struct, Var, Seq)):
        return ("obj", eng.term(st, a), v.cls if isinstance(v, Struct) else v.ty if isinstance(v, Var) else "sequence", spec)
    return ("?", type(v).__name__)


def fmt_pieces(eng, st, fmt, args):
    """What formatting the arguments with the template writes, as a tuple of pieces."""
    if not (isinstance(fmt, Str) and isinstance(fmt.term, tuple) and fmt.term[0] == "lit"):
        return (("?", "template"),)
    fs = fmt_fields(fmt.term[1])
    if fs is None:
        return (("?", "template"),)
    out = []
    for f in fs:
        if f[0] == "lit":
            out.append(f)
        elif f[1] >= len(args):
            out.append(("?", "argument"))
        else:
            out.append(fmt_piece(eng, st, args[f[1]], f[2]))
    return tuple(out)


def str_pieces(term):
    """A string term as a flat list of pieces, adjacent literals merged."""
    if term[0] == "cat":
        out = str_pieces(term[1]) + str_pieces(term[2])
    elif term[0] == "pieces":
        out = []
        for p in term[1]:
            out += str_pieces(p[1]) if p[0] == "str" and p[2] == "" else [p]
    elif term[0] == "lit":
        out = [term]
    else:
        out = [("str", term, "")]
    res = []
    for p in out:
        if p[0] == "lit" and not p[1]:
            continue
        if p[0] == "lit" and res and res[-1][0] == "lit":
            res[-1] = ("lit", res[-1][1] + p[1])
        else:
            res.append(p)
    return res


def emit(eng, st, pieces, node):
    """Append to the text written so far (format context or stream)."""
    g = st.cells.get(("ghost", "out"))
    new = ("pieces", tuple(pieces))
    st.cells[("ghost", "out")] = Str(new if g is None else ("cat", g.term, new) if isinstance(g, Str) else ("lost",))


def f_to_string(eng, st, args, node):
    v = eng.read(st, args[0])
    if isinstance(v, Str):
        return [(st, v)]
    spec = "" if node.get("fn", "").startswith("fmt::") or (isinstance(v, R) and v.is_int()) else "f"
    return [(st, Str(("pieces", (fmt_piece(eng, st, args[0], spec),))))]


def f_format(eng, st, args, node):
    return [(st, Str(("pieces", fmt_pieces(eng, st, eng.read(st, args[0]), args[1:]))))]


def is_out(v):
    return isinstance(v, Opq) and isinstance(v.term, tuple) and len(v.term) == 3 and v.term[0] == "m" and v.term[2] == "out"


def f_format_to(eng, st, args, node):
    fmt, out = eng.read(st, args[1]), eng.read(st, args[0])
    ps = fmt_pieces(eng, st, fmt, args[2:])
    eng.event(st, "format", node, fmt=fmt, args=[(a, eng.read(st, a)) for a in args[2:]], out=is_out(out))
    emit(eng, st, ps if is_out(out) else (("?", "destination"),), node)
    return [(st, out)]


def f_stream(eng, st, args, node):
    v = eng.read(st, args[1])
    emit(eng, st, (fmt_piece(eng, st, args[1], "" if isinstance(v, Str) or isinstance(v, R) and v.is_int() else "g"),), node)
    return [(st, args[0])]


def f_join(eng, st, args, node):
    rd = [eng.read(st, a) for a in args]
    if len(args) == 3 and isinstance(rd[0], It):
        segs = range_segs(eng, st, rd[0], rd[1])
        return [(st, Opq("fmt::join", ("join", segs, strterm(rd[2])), (segs, rd[2])))]
    if len(args) == 2:
        v = eng.seq_from(st, rd[0])
        return [(st, Opq("fmt::join", ("join", v.segs if v else None, strterm(rd[1])), (v.segs if v else None, rd[1])))]
    return invalid(eng, st, "join")


def f_make_reverse(eng, st, args, node):
    it = eng.read(st, args[0])
    if isinstance(it, It):
        return [(st, It(it.ref, it.pos - ONE_R, True) if not it.rev else It(it.ref, it.pos + ONE_R, False))]
    return invalid(eng, st, "reverse iterator")


def f_minmax_element(mx):
    def h(eng, st, args, node):
        b, e = eng.read(st, args[0]), eng.read(st, args[1])
        if not (isinstance(b, It) and isinstance(e, It)):
            return invalid(eng, st, "extreme element")
        comp = args[2] if len(args) > 2 else Functor("std::less")
        best = eng.alloc(st, b, "best")
        if not isinstance(comp, Ref):
            comp = eng.alloc(st, comp, "fn")

        def body(s, it):
            bb = eng.read(s, best)
            if not isinstance(bb, It):
                s.exact = False
                return [(s, None)]
            x, y = eng.it_ref(s, bb, node), eng.it_ref(s, it, node)
            if not mx:
                x, y = y, x
            res = []
            for s2, r in bool_of(eng, s, callv(eng, s, comp, [x, y], node)):
                if r:
                    eng.write(s2, best, it)
                res.append((s2, None))
            return res
        out = []
        for s, empty in eng.cmp(st, "==", b.pos, e.pos):
            if empty:
                out.append((s, b))
            else:
                out += [(s2, eng.read(s2, best)) for s2, sig in
                        eng.iterate(s, eng.it_add(s, b, ONE_R), e, node, body)]
        return out
    return h


FN = {
    "tao::pegtl::parse": f_peg("parse"), "tao::pegtl::match": f_peg("match"),
    "std::next": f_prevnext(1), "std::prev": f_prevnext(-1), "std::advance": f_advance, "std::distance": f_distance,
    "std::min": f_minmax(False), "std::max": f_minmax(True), "std::fmin": f_minmax(False), "std::fmax": f_minmax(True),
    "std::isinf": f_isinf, "std::isnan": f_isnan, "std::isfinite": f_isfinite,
    "std::make_shared": f_make_shared("shared"), "std::make_unique": f_make_shared("unique"),
    "std::make_tuple": f_make_tuple, "std::make_pair": f_make_pair, "std::tie": f_tie,
    "std::forward_as_tuple": f_make_tuple,
    "std::get_if": f_get_if, "std::get": f_get, "std::holds_alternative": f_holds, "std::visit": f_visit,
    "std::lower_bound": f_lower, "std::upper_bound": f_upper, "std::reverse": f_reverse,
    "std::transform": f_transform, "std::copy": f_copy, "std::copy_if": f_copy_if, "std::for_each": f_for_each,
    "std::accumulate": f_accumulate, "std::find_if": f_find_if, "std::find_if_not": f_find_if_not, "std::partition_point": f_find_if_not, "std::swap": f_swap, "std::exchange": f_exchange,
    "std::any_of": f_quant("any_of"), "std::all_of": f_quant("all_of"), "std::none_of": f_quant("none_of"),
    "std::back_inserter": f_back_inserter, "std::stol": f_stonum("i"), "std::stoll": f_stonum("i"), "std::stof": f_stonum("r", "float"), "std::strtof": f_stonum("r", "float"),
    "std::stoi": f_stonum("i", "int"), "std::stoul": f_stonum("i"), "std::stoull": f_stonum("i"), "std::stod": f_stonum("r"),
    "std::stold": f_stonum("r"), "std::strtod": f_stonum("r"), "std::locale::classic": lambda eng, st, args, node: [(st, Opq("std::locale", ("classic",)))],
    "std::make_move_iterator": f_move_iterator, "std::to_string": f_to_string, "fmt::to_string": f_to_string, "fmt::format": f_format,
    "fmt::format_to": f_format_to, "fmt::join": f_join, "std::make_reverse_iterator": f_make_reverse,
    "std::min_element": f_minmax_element(False), "std::max_element": f_minmax_element(True),
}


# ---- functors ----------------------------------------------------------------------
def repo_op(eng, st, op, cls, n):
    """A repo operator for class cls with n parameters (free or member)."""
    ns = cls.rsplit("::", 1)[0]
    for F in eng.prog.by_qn.get(f"{ns}::operator{op}", []):
        if len(F.params) == n and all(strip_cvref(p["ct"]) == cls for p in F.params):
            return F, False
    for F in eng.prog.by_qn.get(f"{cls}::operator{op}", []):
        if len(F.params) == n - 1:
            return F, True
    return None, False


def functor(eng, st, f, args, node):
    ty = f.ty
    if ty == "std::negate":
        v = eng.read(st, args[0])
        if isinstance(v, R):
            return [(st, -v)]
        if isinstance(v, Struct):
            F, mem = repo_op(eng, st, "-", v.cls, 1)
            if F is not None:
                return eng.call_fun(st, F, args[0] if mem else None, [] if mem else [args[0]], node)
        return invalid(eng, st, "negate")
    if ty == "std::identity":
        return [(st, args[0])]
    op = FOPS.get(ty)
    if op is None or len(args) != 2:
        return invalid(eng, st, "functor " + ty)
    return binop(eng, st, op, args[0], args[1], node)


def binop(eng, st, op, a, b, node):
    x, y = eng.read(st, a), eng.read(st, b)
    if isinstance(x, Struct) and x.cls.startswith("signal_tl"):
        F, mem = repo_op(eng, st, op, x.cls, 2)
        if F is not None and not F.j.get("defaulted"):
            ra = a if isinstance(a, Ref) else eng.alloc(st, a, "tmp")
            return eng.call_fun(st, F, ra, [b], node) if mem else eng.call_fun(st, F, None, [ra, b], node)
    if op in ("<", "<=", ">", ">="):
        if isinstance(x, It) and isinstance(y, It):
            if x.rev:
                x, y = y, x
            return eng.cmp(st, op, x.pos, y.pos, node)
        if isinstance(x, Str) and isinstance(y, Str):
            return eng.truth(st, B(("str" + op, x.term, y.term)))
        return eng.cmp(st, op, x, y, node)
    if op == "==":
        return eng.eq(st, x, y, node)
    if op == "!=":
        return [(s, not r) for s, r in eng.eq(st, x, y, node)]
    v = eng.arith_t(st, op, x, y, node.get("t", "double"))
    return [(st, v)]


# ---- operators -----------------------------------------------------------------------
def ocall(eng, st, e):
    op = e["op"]
    out = []
    if op in ("&&", "||"):
        return invalid(eng, st, "overloaded " + op)
    for s, args in eng.evs(st, e["a"]):
        out += oper(eng, s, op, args, e)
    return out


ISTREAM = "std::istringstream"


def oper(eng, st, op, args, e):
    v = eng.read(st, args[0])
    n = e.get("na", len(args))
    if isinstance(v, Struct) and v.cls == ISTREAM:
        if op == ">>" and len(args) == 2 and isinstance(args[1], Ref):
            t = strip_cvref((e.get("pt") or [""])[-1])
            kind = "r" if t in REALS else "i" if t in INTS and "char" not in t else None
            text = v.f["text"]
            if kind and isinstance(text, Str) and not v.f["n"]:
                eng.write(st, args[1], R.a(atom(("stonum", text.term, {"i": "l", "r": "d"}[kind] if t != "float" and t not in ("int", "short", "unsigned int", "unsigned short") else t), kind)), e)
                if isinstance(args[0], Ref):
                    eng.write(st, args[0], v.with_("n", True), e)
                return [(st, args[0])]
            eng.write(st, args[1], eng.top(st, "read from a stream"), e)
            return [(st, args[0])]
        if op == "!":
            return [(st, False)]
        return invalid(eng, st, "stream operator " + op)
    if op == "<<" and isinstance(v, Opq) and v.ty.startswith("std::basic_ostream"):
        return f_stream(eng, st, args, e)
    if op == "()":
        return callv(eng, st, args[0], args[1:], e)
    if op == "->":
        if isinstance(v, Ptr):
            return [(st, v)]
        if isinstance(v, It):
            return [(st, Ptr(eng.it_ref(st, v, e), "raw"))]
        if isinstance(v, Opt):
            check_opt(eng, st, v, e)
            r = args[0] if isinstance(args[0], Ref) else eng.alloc(st, v, "tmp")
            return [(st, Ptr(r + ("opt",), "raw"))]
        return invalid(eng, st, "-> of unknown")
    if op == "*" and len(args) == 1:
        if isinstance(v, OutIt):
            return [(st, args[0])]
        if isinstance(v, Opt):
            check_opt(eng, st, v, e)
            r = args[0] if isinstance(args[0], Ref) else eng.alloc(st, v, "tmp")
            return [(st, r + ("opt",))]
        if isinstance(v, (Ptr, It)):
            return [(st, eng.deref(st, v, e))]
        return invalid(eng, st, "* of unknown")
    if op == "[]":
        return method(eng, st, args[0], "[]", args[1:], e)
    if op == "=":
        if isinstance(v, OutIt):
            cell = args[0]
            return [(s, args[0]) for s in push_out(eng, st, cell, args[1], e)]
        x = eng.read(st, args[1])
        t = strip_cvref(e["t"])
        if isinstance(v, Struct) and v.cls == "std::tuple&" and isinstance(x, Struct):
            for k, y in zip(v.f, x.f.values()):
                eng.write(st, v.f[k].ref, y, e)
            return [(st, args[0])]
        b, a = ptype(t)
        x = eng.coerce(st, x, t, e["a"][1] if len(e["a"]) > 1 else None)
        if isinstance(x, Init):
            x = eng.init_to(st, x, t)
        eng.write(st, args[0], x, e)
        return [(st, args[0])]
    if op in ("++", "--"):
        if isinstance(v, OutIt):
            return [(st, args[0])]
        one = ONE_R if op == "++" else -ONE_R
        if isinstance(v, It):
            new = eng.it_add(st, v, one, e)
        elif isinstance(v, R):
            new = v + one
        else:
            st.exact = False
            new = eng.top(st, "++ of unknown")
        if not isinstance(args[0], Ref) and n == 1:
            return [(st, new)]
        eng.write(st, args[0], new, e)
        return [(st, v if n > 1 else args[0])]
    if op in ("+=", "-="):
        x = eng.read(st, args[1])
        if isinstance(v, It) and isinstance(x, R):
            if not isinstance(args[0], Ref):
                return [(st, eng.it_add(st, v, x if op == "+=" else -x))]
            eng.write(st, args[0], eng.it_add(st, v, x if op == "+=" else -x), e)
            return [(st, args[0])]
        if isinstance(v, Str) and isinstance(x, Str):
            eng.write(st, args[0], Str(("cat", v.term, x.term)), e)
            return [(st, args[0])]
        st.exact = False
        eng.write(st, args[0], eng.top(st, op), e)
        return [(st, args[0])]
    if op == "!":
        return [(s, not b) for s, b in eng.truth(st, v)]
    if op in ("==", "!=", "<", "<=", ">", ">="):
        return binop(eng, st, op, args[0], args[1], e)
    if op in ("+", "-", "*", "/") and len(args) == 2:
        return binop(eng, st, op, args[0], args[1], e)
    if op == "-" and len(args) == 1:
        return functor(eng, st, Functor("std::negate"), args, e)
    if op == "<<":
        return [(st, args[0])]
    return invalid(eng, st, "operator " + op)


def check_opt(eng, st, v, e):
    for_ok = v.has is True or (isinstance(v.has, B) and st.bools.get(v.has.term) is True)
    bad = v.has is False or (isinstance(v.has, B) and st.bools.get(v.has.term) is False)
    eng.event(st, "optderef", e, ok=True if for_ok else (False if bad else None))


# ---- methods ---------------------------------------------------------------------------
def mcall(eng, st, e):
    out = []
    name = e.get("fn", "").split("::")[-1]
    if name.startswith("operator"):
        # conversion operators such as shared_ptr -> bool
        for s, o in eng.ev(st, e["obj"]):
            v = eng.read(s, o)
            if isinstance(v, Struct) and v.cls == ISTREAM:
                out.append((s, True))
            elif e["t"] == "bool":
                out += eng.truth(s, v)
            else:
                out.append((s, o))
        return out
    for s, o in eng.ev(st, e["obj"]) if e.get("obj") else [(st, None)]:
        if e.get("arrow"):
            o = eng.deref(s, eng.read(s, o), e)
        for s2, args in eng.evs(s, e["a"]):
            out += method(eng, s2, o, name, args, e)
    return out


def method(eng, st, o, name, args, e):
    v = eng.read(st, o)
    ref = o if isinstance(o, Ref) else None
    if isinstance(v, (Seq, Init)):
        if ref is None:
            ref = eng.alloc(st, v, "tmp")
        return seq_method(eng, st, ref, v, name, args, e)
    if isinstance(v, MapV):
        if ref is None:
            ref = eng.alloc(st, v, "tmp")
        return map_method(eng, st, ref, v, name, args, e)
    if isinstance(v, Opt):
        if ref is None:
            ref = eng.alloc(st, v, "tmp")
        if name == "has_value":
            return eng.truth(st, v.has)
        if name == "value":
            out = []
            for s, h in eng.truth(st, v.has):
                if h:
                    out.append((s, ref + ("opt",)))
                else:
                    eng.throw(s, Exc("std::bad_optional_access", ()), e)
            return out
        if name == "value_or":
            return [(s, v.val if h else eng.read(s, args[0])) for s, h in eng.truth(st, v.has)]
        if name == "reset":
            eng.write(st, ref, Opt(False, None), e)
            return [(st, None)]
        if name == "emplace":
            t = strip_cvref(e["t"])
            x = eng.read(st, args[0]) if args else eng.default(t, st)
            eng.write(st, ref, Opt(True, eng.coerce(st, x, t, e["a"][0] if e.get("a") else None)), e)
            return [(st, ref + ("opt",))]
    if isinstance(v, Ptr):
        if name == "get":
            return [(st, v)]
        if name == "reset":
            eng.write(st, ref, eng.read(st, args[0]) if args else NULL, e)
            return [(st, None)]
        if name == "release":
            eng.write(st, ref, NULL, e)
            return [(st, v)]
        if name == "use_count":
            eng.event(st, "usecount", e)
            return [(st, R.a(atom(eng.fresh("use_count"), "i")))]
        if name == "swap":
            return f_swap(eng, st, [o, args[0]], e)
    if isinstance(v, Str):
        if name in ("c_str", "data", "str", "string", "substr"):
            if name == "substr":
                return [(st, Str(("substr", v.term) + tuple(eng.term(st, a) for a in args)))]
            return [(st, v)]
        if name in ("size", "length"):
            if v.term[0] == "lit":
                return [(st, R.c(len(v.term[1])))]
            return [(st, R.a(atom(("strlen", v.term), "i")))]
        if name == "empty":
            if v.term[0] == "lit":
                return [(st, v.term[1] == "")]
            return [(st, B(("strempty", v.term)))]
        if name in ("append", "push_back"):
            x = eng.read(st, args[0])
            eng.write(st, o, Str(("cat", v.term, strterm(x))), e)
            return [(st, o)]
        if name in ("compare", "find", "rfind"):
            return [(st, R.a(atom(("str" + name, v.term) + tuple(eng.term(st, a) for a in args), "i")))]
        if name == "clear":
            eng.write(st, o, Str(("lit", "")), e)
            return [(st, None)]
    if isinstance(v, Var):
        if name == "index":
            return [(s, R.c(k)) for s, k in eng.var_split(st, v)]
        if name == "valueless_by_exception":
            return [(st, False)]
        if name == "emplace":
            t = strip_cvref(e["t"])
            out = []
            for s, x in make_object(eng, st, t, args, e):
                k = want_alt(eng, v, t)
                eng.write(s, o, Var(v.ty, None, k, eng.read(s, x)), e)
                out.append((s, o + ("a", k) if isinstance(o, Ref) else None))
            return out
    if isinstance(v, It):
        if name == "base":
            return [(st, It(v.ref, v.pos + ONE_R) if v.rev else v)]
    if isinstance(v, Exc):
        return [(st, Str(("what", v.ty)))]
    if isinstance(v, Struct) and v.cls == ISTREAM:
        if name in ("fail", "bad", "good"):
            return [(st, name == "good")]
        if name == "str" and not args:
            return [(st, v.f["text"])]
        if name in ("imbue", "exceptions", "setf", "unsetf", "precision"):
            return [(st, eng.top(st, "old setting") if e.get("t", "void") != "void" else None)]
    if isinstance(v, Struct) and name == "swap" and args:
        return f_swap(eng, st, [o, args[0]], e)
    if isinstance(v, Opq):
        if v.ty == "pegtl-action-input":
            if name in ("string", "string_view"):
                return [(st, v.args[0])]
            if name == "empty":
                return [(st, False)]
        eng.event(st, "opqcall", e, obj=v, name=name, args=args)
        t = strip_cvref(e.get("t", "void"))
        if t == "void":
            return [(st, None)]
        return [(st, eng.sym(t, ("m", v.term, name) + tuple(eng.term(st, a) for a in args)))]
    st.exact = False
    t = strip_cvref(e.get("t", "void"))
    return [(st, None if t == "void" else eng.top(st, f"method {name} of {v!r}"[:80]))]


def nonempty(eng, st, v, e, what):
    n = eng.seq_len(v)
    eng.bounds(st, v, ZERO if what == "front" else n - ONE_R, e, what)


MUTATORS = {"push_back", "emplace_back", "push_front", "emplace_front", "pop_back", "pop_front", "clear", "erase",
            "insert", "assign", "resize", "swap"}


def seq_method(eng, st, ref, v, name, args, e):
    n = eng.seq_len(v)
    if name in ("begin", "cbegin"):
        return [(st, It(ref, ZERO))]
    if name in ("end", "cend"):
        return [(st, It(ref, n))]
    if name in ("rbegin", "crbegin"):
        return [(st, It(ref, n - ONE_R, True))]
    if name in ("rend", "crend"):
        return [(st, It(ref, -ONE_R, True))]
    if name in ("size", "length", "ssize"):
        return [(st, n)]
    if name == "empty":
        return eng.cmp(st, "==", n, ZERO, e)
    if name in ("reserve", "shrink_to_fit"):
        return [(st, None)]
    if name == "capacity":
        return [(st, R.a(atom(eng.fresh("cap"), "i")))]
    if name == "data":
        return [(st, It(ref, ZERO))]
    if isinstance(v, Init):
        if name == "[]":
            v = Seq([("item", x) for x in v.vals], "")
        else:
            return invalid(eng, st, "list." + name)
    if name == "front":
        nonempty(eng, st, v, e, "front")
        return [(st, ref + ("i", ZERO))]
    if name == "back":
        nonempty(eng, st, v, e, "back")
        return [(st, ref + ("i", n - ONE_R))]
    if name in ("[]", "at"):
        i = eng.read(st, args[0])
        if not isinstance(i, R):
            return invalid(eng, st, "index")
        if name == "[]":
            eng.bounds(st, v, i, e, "index")
            return [(st, ref + ("i", i))]
        if not i.is_int() and i.const() is None:
            return invalid(eng, st, "index")
        out = []
        st.facts.add("<=", -i)   # the index type is unsigned
        for s, ok in eng.cmp(st, "<", i, n, e):
            if ok:
                out.append((s, ref + ("i", i)))
            else:
                eng.throw(s, Exc("std::out_of_range", ()), e)
        return out
    if GHOST in st.cells and v.et == SAMPLE and v.kind in ("std::deque", "std::list", "deque") and name in MUTATORS:
        eng.event(st, "seqop", e, ref=ref, name=name, seq=v)
    if name in ("push_back", "emplace_back"):
        t = v.et
        if name == "emplace_back" and not (len(args) == 1 and argtype(eng, st, args[0], (e.get("a") or [None])[0]) == t):
            out = []
            for s, x in make_object(eng, st, t, args, e):
                x = eng.read(s, x)
                s_v = eng.read(s, ref)
                eng.write(s, ref, s_v.push(x), e)
                out.append((s, ref + ("i", eng.seq_len(s_v))))
            return out
        x = eng.coerce(st, eng.read(st, args[0]), t, (e.get("a") or [None])[0])
        if isinstance(x, Init):
            x = from_init(eng, st, x, t)
        eng.write(st, ref, v.push(x), e)
        return [(st, ref + ("i", n))]
    if name in ("push_front", "emplace_front"):
        x = eng.coerce(st, eng.read(st, args[0]), v.et, (e.get("a") or [None])[0])
        if v.over:
            return invalid(eng, st, "push_front")
        eng.write(st, ref, Seq((("item", x),) + v.segs, v.et, (), v.kind), e)
        return [(st, None)]
    if name in ("pop_back", "pop_front"):
        nonempty(eng, st, v, e, "back" if name == "pop_back" else "front")
        s2 = slice_(eng, st, v, ZERO, n - ONE_R) if name == "pop_back" else slice_(eng, st, v, ONE_R, n)
        if s2 is None:
            # last element of a base segment: it exists on this path (checked above)
            st.facts.add("<=", ONE_R - n)
            s2 = slice_(eng, st, v, ZERO, n - ONE_R) if name == "pop_back" else slice_(eng, st, v, ONE_R, n)
        if s2 is None:
            st.exact = False
            eng.write(st, ref, eng.top(st, name), e)
        else:
            eng.write(st, ref, Seq(s2, v.et, (), v.kind), e)
        return [(st, None)]
    if name == "clear":
        eng.write(st, ref, Seq([], v.et, (), v.kind), e)
        return [(st, None)]
    if name in ("erase", "insert", "assign", "resize", "swap"):
        a = [eng.read(st, x) for x in args]
        segs = None
        res = None
        if name == "swap":
            return f_swap(eng, st, [ref, args[0]], e)
        if name == "erase" and a and isinstance(a[0], It):
            lo = a[0].pos
            hi = a[1].pos if len(a) > 1 and isinstance(a[1], It) else lo + ONE_R
            x, y = slice_(eng, st, v, ZERO, lo), slice_(eng, st, v, hi, n)
            if x is not None and y is not None:
                segs = x + y
            res = It(ref, lo)
        elif name == "insert" and a and isinstance(a[0], It):
            mid = None
            if len(a) == 3 and isinstance(a[1], It):
                mid = range_segs(eng, st, a[1], a[2])
            elif len(a) == 2 and isinstance(a[1], Init):
                mid = tuple(("item", eng.coerce(st, x, v.et)) for x in a[1].vals)
            elif len(a) == 2:
                mid = (("item", eng.coerce(st, a[1], v.et, e["a"][1])),)
            x, y = slice_(eng, st, v, ZERO, a[0].pos), slice_(eng, st, v, a[0].pos, n)
            if mid is not None and x is not None and y is not None:
                segs = x + tuple(mid) + y
            res = It(ref, a[0].pos)
        elif name == "assign" and len(a) == 2 and isinstance(a[0], It):
            segs = range_segs(eng, st, a[0], a[1])
        if segs is None:
            st.exact = False
            eng.write(st, ref, eng.top(st, name), e)
            return [(st, eng.top(st, name))]
        eng.write(st, ref, Seq(segs, v.et, (), v.kind), e)
        return [(st, res)]
    return invalid(eng, st, "vector." + name)


def from_init(eng, st, x, t):
    ft = eng.field_types(t)
    if ft is not None:
        f = {}
        for i, (n, ty) in enumerate(ft):
            f[n] = eng.coerce(st, x.vals[i], ty) if i < len(x.vals) else eng.default(ty, st)
        return Struct(t, f)
    return eng.init_to(st, x, t)


def map_key(eng, st, x):
    return eng.read(st, x)


def distinct_text(a, b):
    """Texts that cannot be equal: two literals, or the names of two different identifiers of a sentential form."""
    return a.term[0] == b.term[0] and a.term[0] in ("lit", "id") and a != b


def map_find(eng, st, v, key):
    """-> [(state, found)]"""
    for k, val, how in reversed(v.ins):
        if k == key:
            return [(st, True)]
        if not (isinstance(k, Str) and isinstance(key, Str) and distinct_text(k, key)):
            # may alias: an equality on keys
            out = []
            for s, r in eng.eq(st, k, key):
                if r:
                    out.append((s, True))
                else:
                    out += map_find(eng, s, MapV(v.name, v.ins[:-1], v.kt, v.vt), key)
            return out
    if v.name is None:
        return [(st, False)]
    t = key.term if isinstance(key, Str) else ("key", repr(key))
    return eng.truth(st, B(("inmap", v.name, t)))


def map_pos(eng, key):
    return R.a(atom(("mappos", repr(key)), "i", ("mappos", key)))


def map_method(eng, st, ref, v, name, args, e):
    n = R.a(atom(("mapend",), "i"))
    if name in ("begin", "cbegin"):
        return [(st, It(ref, ZERO))]
    if name in ("end", "cend"):
        return [(st, It(ref, eng.seq_len(v)))]
    if name == "size":
        return [(st, eng.seq_len(v))]
    if name == "empty":
        return eng.cmp(st, "==", eng.seq_len(v), ZERO, e)
    if name == "clear":
        eng.write(st, ref, MapV(None, (), v.kt, v.vt), e)
        return [(st, None)]
    if name in ("at", "find", "count", "contains", "[]"):
        key = map_key(eng, st, args[0])
        out = []
        for s, f in map_find(eng, st, v, key):
            if name == "at":
                eng.event(s, "mapat", e, key=key, map=v, found=f)
                if f:
                    out.append((s, ref + ("m", key)))
                else:
                    eng.throw(s, Exc("std::out_of_range", (key,)), e)
            elif name == "[]":
                eng.event(s, "mapindex", e, key=key, map=v, found=f)
                if not f:
                    d = eng.default(v.vt, s)
                    eng.write(s, ref, MapV(v.name, v.ins + ((key, d, "default"),), v.kt, v.vt), e)
                out.append((s, ref + ("m", key)))
            elif name == "find":
                out.append((s, It(ref, map_pos(eng, key)) if f else It(ref, eng.seq_len(v))))
                if f:
                    s.facts.add("!=", map_pos(eng, key) - eng.seq_len(v))
            elif name == "count":
                out.append((s, R.c(1 if f else 0)))
            else:
                out.append((s, f))
        return out
    if name in ("insert", "emplace", "insert_or_assign", "try_emplace"):
        if name == "insert" and len(args) == 2:
            a0, a1 = eng.read(st, args[0]), eng.read(st, args[1])
            if isinstance(a0, It) and isinstance(a1, It):
                src = eng.read(st, a0.ref)
                if isinstance(src, MapV) and v.name is None and not v.ins:
                    eng.write(st, ref, MapV(src.name, src.ins, v.kt, v.vt), e)
                    return [(st, None)]
                st.exact = False
                return [(st, None)]
        if len(args) == 1:
            p = eng.read(st, args[0])
            if isinstance(p, Init) and len(p.vals) == 2:
                k, x = p.vals
            elif isinstance(p, Struct) and len(p.f) == 2:
                k, x = p.f.values()
            else:
                return invalid(eng, st, "map insert")
        else:
            k, x = eng.read(st, args[0]), eng.read(st, args[1])
        x = eng.coerce(st, x, v.vt, (e.get("a") or [None, None])[1] if len(args) > 1 else None)
        out = []
        for s, f in map_find(eng, st, v, k):
            eng.event(s, "mapinsert", e, key=k, map=v, val=x, found=f, how=name, ref=ref)
            if not f or name == "insert_or_assign":
                eng.write(s, ref, MapV(v.name, v.ins + ((k, x, name),), v.kt, v.vt), e)
            out.append((s, Struct("std::pair", {"first": It(ref, map_pos(eng, k)), "second": not f})))
        return out
    if name == "erase":
        eng.event(st, "maperase", e, map=v, ref=ref)
        st.exact = False
        eng.write(st, ref, eng.top(st, "map erase"), e)
        return [(st, None)]
    return invalid(eng, st, "map." + name)


# ---- construction ------------------------------------------------------------------------
def construct(eng, st, e, t):
    out = []
    for s, args in eng.evs(st, e["a"]):
        out += construct_std(eng, s, t, args, e)
    return out


def construct_std(eng, st, t, args, e):
    b, a = ptype(t)
    an = e.get("a") or []
    vals = [eng.read(st, x) for x in args]
    # defaulted iterator / allocator arguments
    if b in ("std::vector", "std::deque"):
        et = strip_cvref(a[0])
        vals2 = [v for v, x in zip(vals, an + [None] * len(vals)) if not (isinstance(v, Opq) and "allocator" in v.ty)]
        vals2 = [v for v in vals2 if not (isinstance(v, Top) and "allocator" in v.why)]
        if not vals2:
            return [(st, Seq([], et, (), b))]
        v = vals2[0]
        if isinstance(v, Init):
            its = []
            for x in v.vals:
                x = eng.coerce(st, x, et)
                if isinstance(x, Init):
                    x = from_init(eng, st, x, et)
                its.append(("item", x))
            return [(st, Seq(its, et, (), b))]
        if isinstance(v, Seq):
            return [(st, Seq(v.segs, et, v.over, b))]
        if isinstance(v, It) and len(vals2) > 1:
            segs = range_segs(eng, st, v, vals2[1])
            if segs is not None:
                return [(st, Seq(segs, et, (), b))]
            return invalid(eng, st, "vector from range")
        if isinstance(v, R):
            c = v.const()
            if c is not None and 0 <= c <= 8:
                x = vals2[1] if len(vals2) > 1 else eng.default(et, st)
                return [(st, Seq([("item", x)] * int(c), et, (), b))]
            return invalid(eng, st, "sized vector")
        return invalid(eng, st, "vector construction")
    if b in ("std::basic_istringstream", "std::basic_stringstream", "std::istringstream", "std::stringstream") and vals and isinstance(vals[0], Str):
        return [(st, Struct(ISTREAM, {"text": vals[0], "n": False}))]
    if is_exc_type(eng, t):
        return [(st, Exc(t, tuple(vals)))]
    if b == "std::optional":
        if not vals:
            return [(st, Opt(False, None))]
        if isinstance(vals[0], Opt):
            return [(st, vals[0])]
        return [(st, Opt(True, eng.coerce(st, vals[0], a[0], an[0] if an else None)))]
    if b == "std::variant":
        if not vals:
            return [(st, eng.default(t))]
        return [(st, eng.coerce(st, vals[0], t, an[0] if an else None))]
    if b in ("std::shared_ptr", "std::unique_ptr"):
        if not vals:
            return [(st, NULL)]
        return [(st, vals[0] if isinstance(vals[0], Ptr) else eng.top(st, "pointer"))]
    if b == "std::pair":
        if not vals:
            return [(st, eng.default(t, st))]
        if len(vals) == 2:
            return [(st, Struct("std::pair", {"first": eng.coerce(st, vals[0], a[0], an[0] if an else None),
                                              "second": eng.coerce(st, vals[1], a[1], an[1] if len(an) > 1 else None)}))]
        v = vals[0]
        if isinstance(v, Struct) and len(v.f) == 2:
            x = list(v.f.values())
            return [(st, Struct("std::pair", {"first": eng.coerce(st, x[0], a[0]), "second": eng.coerce(st, x[1], a[1])}))]
    if b == "std::tuple":
        if len(vals) == len(a) and not (len(vals) == 1 and isinstance(vals[0], Struct)):
            return [(st, Struct("std::tuple", {str(i): eng.coerce(st, v, x) for i, (v, x) in enumerate(zip(vals, a))}))]
        if vals:
            return [(st, vals[0])]
    if b in ("std::basic_string", "std::basic_string_view"):
        if not vals:
            return [(st, Str(("lit", "")))]
        if isinstance(vals[0], Str):
            return [(st, vals[0])]
        if isinstance(vals[0], Init):
            return [(st, Str(("lit", "")))] if not vals[0].vals else invalid(eng, st, "string")
        return [(st, Str(("strof",) + tuple(eng.term(st, x) for x in args)))]
    if b in ("std::map", "std::unordered_map"):
        if not vals:
            return [(st, MapV(None, (), a[0], a[1]))]
        if isinstance(vals[0], MapV):
            return [(st, vals[0])]
        if isinstance(vals[0], It):
            src = eng.read(st, vals[0].ref)
            if isinstance(src, MapV):
                return [(st, src)]
        if isinstance(vals[0], Init):
            m = MapV(None, (), a[0], a[1])
            for p in vals[0].vals:
                x = list(p.f.values()) if isinstance(p, Struct) else list(p.vals) if isinstance(p, Init) else None
                if x is None or len(x) != 2:
                    return invalid(eng, st, "map construction")
                m = MapV(None, m.ins + ((x[0], x[1], "insert"),), a[0], a[1])
            return [(st, m)]
    if b in FUNCTORS:
        return [(st, Functor(b))]
    if b == "std::reverse_iterator" and vals and isinstance(vals[0], It) and not vals[0].rev:
        return f_make_reverse(eng, st, args, e)
    if "allocator" in b:
        return [(st, Opq(t, ("alloc",)))]
    if b == "std::function" and vals:
        return [(st, vals[0])]
    if not vals:
        ft = eng.field_types(t)
        if ft is not None or b.startswith("std::"):
            return [(st, eng.default(t, st))]
        return [(st, Opq(t, eng.fresh("obj")))]
    if len(vals) == 1:
        return [(st, args[0] if not isinstance(args[0], Ref) else vals[0])]
    if b.startswith("std::") or t not in eng.prog.records:
        return [(st, Opq(t, ("new", t) + tuple(eng.term(st, x) for x in args), tuple(vals)))]
    return invalid(eng, st, "construct " + t[:40])


# ---- summaries of verified library functions -------------------------------------------
def sample_of(eng, st, args):
    if len(args) == 1:
        return eng.read(st, args[0])
    t, v = eng.read(st, args[0]), eng.read(st, args[1])
    return Struct(SAMPLE, {"time": t, "value": v, "derivative": ZERO})


def prim_push_back(eng, st, F, this, args, node):
    if "signal_tl::signal::Signal::push_back" in eng.noprim:
        return None
    eng.in_append += 1
    try:
        return append_summary(eng, st, F, this, args, node)
    finally:
        eng.in_append -= 1


def append_summary(eng, st, F, this, args, node):
    x = sample_of(eng, st, args)
    sref = this + sig_field(eng)
    out = []
    v = eng.read(st, sref)
    if not isinstance(v, Seq) or not isinstance(x, Struct):
        eng.event(st, "append", node, ok=None, last=None, new=x, ref=this)
        st.exact = False
        eng.write(st, sref, eng.top(st, "push_back on unknown signal"), node)
        return [(st, None)]
    for s, empty in eng.cmp(st, "==", eng.seq_len(v), ZERO):
        s.lits = st.lits if s is st else s.lits
        if empty:
            eng.event(s, "append", node, ok=True, last=None, new=x, ref=this)
            eng.write(s, sref, Seq(v.segs + (("item", x.with_("derivative", ZERO)),), v.et, v.over, v.kind), node)
            out.append((s, None))
            continue
        n = eng.seq_len(v)
        last = eng.read(s, sref + ("i", n - ONE_R))
        lt = last.f.get("time") if isinstance(last, Struct) else None
        nt = x.f["time"]
        if not isinstance(lt, R) or not isinstance(nt, R):
            eng.event(s, "append", node, ok=None, last=last, new=x, ref=this)
            eng.write(s, sref, Seq(v.segs + (("item", x),), v.et, v.over, v.kind), node)
            s.exact = False
            out.append((s, None))
            continue
        ok = s.facts.entails("<", lt - nt)
        eng.event(s, "append", node, ok=ok, last=last, new=x, ref=this)
        if not ok:
            bad = s.copy()
            bad.facts.add("<=", nt - lt)
            eng.throw(bad, Exc("std::invalid_argument", ("append",)), node)
            s.facts.add("<", lt - nt)
        dv, dt = x.f["value"], nt - lt
        w = v
        lv = last.f.get("value")
        if isinstance(dv, R) and isinstance(lv, R):
            w = eng.seq_put(s, v, n - ONE_R, ("derivative",), (dv - lv) / dt)
        eng.write(s, sref, Seq(w.segs + (("item", x.with_("derivative", ZERO)),), w.et, w.over, w.kind), node)
        out.append((s, None))
    return out


def new_signal(eng, st, seq, node):
    """Signal built from a sequence of samples."""
    f = sig_field(eng)
    eng.event(st, "mksignal", node, seq=seq)
    if all(s[0] == "item" for s in seq.segs) and not seq.over and len(seq.segs) <= 8:
        ref = eng.alloc(st, Struct(SIGNAL, {n: (Seq([], SAMPLE) if n == f else eng.default(t, st))
                                            for n, t in eng.field_types(SIGNAL)}), "sig")
        cur = [st]
        for s in seq.segs:
            nx = []
            for c in cur:
                r = prim_push_back(eng, c, None, ref, [s[1]], node)
                nx += [x for x, _ in r]
            cur = nx
        return [(c, eng.read(c, ref)) for c in cur]
    S = eng.fresh("mk")
    eng.mk[S] = (seq, st)
    eng.sorted_seqs.add(S)
    st.facts.add("==", eng.size(S) - eng.seq_len(seq))
    return [(st, Struct(SIGNAL, {n: (Seq([("base", S)], SAMPLE) if n == f else eng.default(t, st))
                                 for n, t in eng.field_types(SIGNAL)}))]


def prim_signal(eng, st, F, this, args, node):
    if SIGNAL + "::Signal" in eng.noprim:
        return None
    f = sig_field(eng)
    vals = [eng.read(st, a) for a in args]
    if not vals:
        return [(st, Struct(SIGNAL, {n: (Seq([], SAMPLE) if n == f else eng.default(t, st))
                                     for n, t in eng.field_types(SIGNAL)}))]
    if len(vals) == 1:
        v = vals[0]
        if isinstance(v, Struct) and v.cls == SIGNAL:
            return [(st, v)]
        if isinstance(v, Init):
            v = Seq([("item", from_init(eng, st, x, SAMPLE) if isinstance(x, Init) else x) for x in v.vals], SAMPLE)
        if isinstance(v, Seq):
            return new_signal(eng, st, v, node)
        st.exact = False
        return [(st, eng.top(st, "signal from unknown"))]
    if len(vals) == 2 and isinstance(vals[0], It) and isinstance(vals[1], It):
        segs = range_segs(eng, st, vals[0], vals[1])
        if segs is not None:
            return new_signal(eng, st, Seq(segs, SAMPLE), node)
    if len(vals) == 2 and all(isinstance(v, Seq) for v in vals):
        eng.event(st, "mksignal2", node, points=vals[0], times=vals[1])
    st.exact = False
    return [(st, eng.top(st, "signal construction"))]


def prim_sync(eng, st, F, this, args, node):
    if F.qn in eng.noprim:
        return None
    x, y = eng.read(st, args[0]), eng.read(st, args[1])
    n = eng.fresh("sync")
    X, Y = n + ("x",), n + ("y",)
    for S in (X, Y):
        eng.sorted_seqs.add(S)
    eng.tbase[Y] = X
    eng.sbase[Y] = X
    eng.sync[n] = (x, y, eng.term(st, args[0]), eng.term(st, args[1]))
    eng.event(st, "sync", node, x=x, y=y, n=n)
    f = sig_field(eng)
    mk = lambda S: Ptr(eng.alloc(st, Struct(SIGNAL, {k: (Seq([("base", S)], SAMPLE) if k == f else eng.default(t, st))
                                                     for k, t in eng.field_types(SIGNAL)}), "sig"), "shared")
    return [(st, Struct("std::tuple", {"0": mk(X), "1": mk(Y)}))]


GHOST = ("ghost", "wedge")     # counts the elements a window has been given, where a rule asks for it


def prim_wedge(eng, st, F, this, args, node):
    """mono_wedge_update(wedge, value, comp): afterwards the last element is value;
    what was dropped from the back is decided by the wedge rules on their own."""
    if F.qn in eng.noprim:
        return None
    w = eng.read(st, args[0])
    val = eng.read(st, args[1])
    eng.event(st, "wedge", node, wedge=args[0], val=val, comp=eng.read(st, args[2]) if len(args) > 2 else None, old=w, fn=F)
    if GHOST in st.cells:
        eng.write(st, Ref(GHOST), st.cells[GHOST] + ONE_R)
    S = eng.fresh("wedge")
    st.facts.add("<=", -eng.size(S))
    if isinstance(w, Seq):
        st.facts.add("<=", eng.size(S) - eng.seq_len(w))
    et = w.et if isinstance(w, Seq) else SAMPLE
    eng.write(st, args[0], Seq([("base", S), ("item", val)], et, (), "std::deque"), node)
    return [(st, None)]


def prim_at(eng, st, F, this, args, node):
    """x.at(t), when the caller asked for the summary: the value of x at time t."""
    if not eng.at_prim or F.qn in eng.noprim:
        return None
    t = eng.read(st, args[0])
    v = eng.read(st, this + sig_field(eng)) if this is not None else None
    if not (isinstance(t, R) and isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0][0] == "base" and not v.over):
        return None
    S = v.segs[0][1]
    n = eng.size(S)
    f = st.facts
    lo, hi = elem(S, ZERO, "time"), elem(S, n - ONE_R, "time")
    miss = [c for c in (("<=", ONE_R - n), ("<=", lo - t), ("<=", t - hi)) if not f.entails(*c)]
    eng.event(st, "at", node, seq=S, time=t, ok=not miss)
    if miss:
        bad = st.copy()
        eng.throw(bad, Exc("std::invalid_argument", ("at",)), node)
        for c in miss:
            f.add(*c)
    return [(st, Struct(SAMPLE, {"time": t, "value": R.a(atom(("at", S, IK(t)), "r", (S, t))),
                                 "derivative": R.a(atom(("atd", S, IK(t)), "r", (S, t)))}))]


PRIMS = {
    SIGNAL + "::at": prim_at,
    SIGNAL + "::push_back": prim_push_back,
    SIGNAL + "::Signal": prim_signal,
    "signal_tl::signal::synchronize": prim_sync,
    "mono_wedge::mono_wedge_update": prim_wedge,
}
