"""C01-C03: what the formula constructors and connectives build."""
import itertools
from rules.common import *
import loops
from loops import norm_segs


# ---- boolean meaning of a formula value -------------------------------------------------
class Unknown(Exception):
    pass


class Den:
    """Denotation of Expr values over atoms; formulas are nested tuples."""

    def __init__(self, eng, st, ty):
        self.eng, self.st, self.ty = eng, st, ty
        self.kinds = alt_kinds(ty)

    def expr(self, v):
        if isinstance(v, Ref):
            v = self.eng.read(self.st, v)
        if isinstance(v, Top):
            raise Unknown(v.why)
        if not isinstance(v, Var):
            if isinstance(v, Struct) or isinstance(v, Ptr):
                return self.node(v)
            raise Unknown(f"not an expression: {type(v).__name__}")
        k, val = v.tag, v.val
        if k is None:
            k = self.st.alts.get(v.term)
            if not isinstance(k, int):
                return ("atom", ("den", v.term))
            val = self.eng.sym(self.eng.var_alts(v)[k], ("alt", v.term, k))
            return self.payload(k, val, v.term)
        return self.payload(k, val, None)

    def payload(self, k, val, term):
        kind = self.kinds[k]
        if kind == "Const":
            b = val.f[next(iter(val.f))] if isinstance(val, Struct) else val
            if isinstance(b, bool):
                return ("const", b)
            if isinstance(b, B):
                if b.term in self.st.bools:
                    return ("const", self.st.bools[b.term])
                return ("atom", ("bool", b.term))
            raise Unknown("constant value")
        return self.node(val, kind)

    def node(self, v, kind=None):
        if isinstance(v, Ptr):
            if v.ref is None:
                raise Unknown("null node")
            o = self.eng.read(self.st, v.ref)
            if not isinstance(o, Struct):
                raise Unknown("node")
            name = o.cls.split("::")[-1]
            if kind is not None and name != kind:
                raise Unknown("node kind")
            if name == "Not":
                return ("not", self.expr(o.f[next(iter(o.f))]))
            if name in ("And", "Or"):
                seq = next(x for x in o.f.values() if isinstance(x, Seq) or isinstance(x, Top))
                return (name.lower(),) + self.seq(seq, name)
            if v.ref.root[0] == "obj" and not v.ref.path:
                return ("atom", ("node", (o.cls, v.ref.root[1])))
            return ("atom", ("node", self.key(o)))
        if isinstance(v, Struct):
            return ("atom", ("node", self.key(v)))
        raise Unknown("node")

    def key(self, o):
        return (o.cls, tuple((k, repr(x)) for k, x in sorted(o.f.items())))

    def seq(self, seq, kind):
        if not isinstance(seq, Seq) or seq.over:
            raise Unknown("operand list")
        out = []
        f = self.st.facts
        segs = norm_segs(self.eng, self.st, seq.segs, seq.et)
        for s in segs:
            if s[0] == "splice":
                # a proper part of a list is not the list
                if any(x is not s and (mentions(x[1], s[1]) if x[0] == "item" else x[1] == s[1]) for x in segs) or \
                        not (f.entails("<", -s[2]) or f.entails("<", s[3] - self.eng.size(s[1]))):
                    raise Unknown("part of an operand list")
                out.append(("atom", ("part", kind, (s[1], repr(s[2]), repr(s[3])))))
            elif s[0] == "base":
                size = self.eng.size(s[1])
                known = next((c for c in range(7) if f.entails("==", size - R.c(c))), None) if loops.UNROLL else None
                if known is not None:
                    out += [self.expr(self.eng.sym_elem(seq.et, s[1], R.c(i))) for i in range(known)]
                    continue
                out.append(("atom", ("list", kind, s[1])))
            elif s[0] == "item":
                out.append(self.expr(s[1]))
            else:
                raise Unknown("part of an operand list")
        return tuple(out)


def mentions(x, S):
    return repr(S) in repr(x)


def atoms_of(f, acc):
    if f[0] == "atom":
        acc.setdefault(f[1], len(acc))
    elif f[0] != "const":
        for x in f[1:]:
            atoms_of(x, acc)
    return acc


def value(f, env):
    k = f[0]
    if k == "const":
        return f[1]
    if k == "atom":
        return env[f[1]]
    if k == "not":
        return not value(f[1], env)
    vs = [value(x, env) for x in f[1:]]
    if k == "and":
        return all(vs)
    if k == "or":
        return any(vs)
    if k == "implies":
        return (not vs[0]) or vs[1]
    if k == "xor":
        return vs[0] != vs[1]
    if k == "iff":
        return vs[0] == vs[1]
    raise KeyError(k)


def equivalent(f, g):
    ats = list(atoms_of(g, atoms_of(f, {})))
    if len(ats) > 14:
        raise Unknown("too many operands")
    for bits in itertools.product((False, True), repeat=len(ats)):
        env = dict(zip(ats, bits))
        if value(f, env) != value(g, env):
            return {str(a[1:]): b for a, b in env.items()}
    return None


def literals(f, kind, acc):
    """Operand multiset after flattening connective `kind`."""
    if f[0] == kind:
        for x in f[1:]:
            literals(x, kind, acc)
    elif f[0] != "const":
        acc.append(f)
    return acc


def show(f):
    if f[0] == "atom":
        return tname(f[1])
    if f[0] == "const":
        return str(f[1]).lower()
    return "(" + f[0] + " " + " ".join(show(x) for x in f[1:]) + ")"


def tname(a):
    from terms import show_key
    k, t = a[0], a[-1]
    if k == "node":
        return t[0].split("::")[-1]
    return show_key(t) + ("..." if k == "list" else "")


def wellformed(eng, st):
    """Existing conjunctions and disjunctions have at least two operands (C03)."""
    names = {f["n"] for c in ("And", "Or") for f in (eng.prog.records.get(AST + c) or {"fields": ()})["fields"] if "vector" in f["t"]}
    for S in list(ATOMS):
        if S.key[0] == "size" and isinstance(S.key[1], tuple) and S.key[1][0] == "fld" and S.key[1][2] in names:
            st.facts.add("<=", R.c(2) - R.a(S))


CONN = [
    (AST + "operator~", ("e",), "not"), (AST + "operator&", ("e", "e"), "and"), (AST + "operator|", ("e", "e"), "or"),
    (AST + "operator>>", ("e", "e"), "implies"),
    ("signal_tl::Not", ("e",), "not"), ("signal_tl::And", ("v",), "and"), ("signal_tl::Or", ("v",), "or"),
    ("signal_tl::Implies", ("e", "e"), "implies"), ("signal_tl::Xor", ("e", "e"), "xor"),
    ("signal_tl::Iff", ("e", "e"), "iff"),
]


def c01(ctx):
    """Every path of every connective is abstractly interpreted on symbolic operands (all alternatives of
    the Expr variant, constants true and false); the returned formula's boolean meaning over operand atoms
    is compared with the connective's by truth table, the flattened operand multiset is compared for the
    folding operators, and every throwing path has to be infeasible for well-formed operands."""
    ty = expr_type(ctx.prog)
    for qn, sig, conn in CONN:
        fs = ctx.fns(qn, lambda F: len(F.params) == len(sig))
        if not fs:
            ctx.missing(qn)
        for F in fs:
            r = ctx.analyse(F)
            nm = qn.split("::")[-1]
            if not r.ok:
                ctx.check(None, nm, F, r.why)
                continue
            for p in r.paths:
                wellformed(r.eng, p.st)
                if p.exc is not None:
                    if sig == ("v",):
                        seq = r.eng.cell(p.st, ("in", F.params[0]["n"]))
                        S = ("p", F.params[0]["n"])
                        p.st.facts.add("<=", R.c(2) - r.eng.size(S))
                    bad = not p.st.facts.unsat()
                    ctx.check(False if bad and p.st.exact else (None if bad else True), nm + ":throw", F,
                              f"throws {p.exc.ty} for well-formed operands" if bad else "throwing path is infeasible")
                    continue
                if p.st.facts.unsat():
                    continue
                try:
                    d = Den(r.eng, p.st, ty)
                    if sig == ("v",):
                        want = (conn,) + (("atom", ("list", conn.capitalize(), ("p", F.params[0]["n"]))),)
                        got = d.expr(p.val)
                        ops = [want[1]]
                    else:
                        ops = []
                        for q in F.params:
                            ops.append(d.expr(r.eng.sym(q["t"], ("p", q["n"]))))
                        want = (conn,) + tuple(ops)
                        got = d.expr(p.val)
                    cex = equivalent(got, want)
                    ctx.check(True if cex is None else (False if p.st.exact else None), nm, F,
                              f"{show(got)} for {show(want)}" + (f"; differs when {cex}" if cex else ""))
                    if cex is None and conn in ("and", "or"):
                        a, b = literals(got, conn, []), literals(want, conn, [])
                        if not any(x[0] == "const" and (x[1] == (conn == "or")) for x in ops):
                            same = sorted(map(repr, a)) == sorted(map(repr, b))
                            ctx.check(True if same else (False if p.st.exact else None), nm + ":operands", F,
                                      f"operands {[show(x) for x in a]} for {[show(x) for x in b]}")
                except Unknown as e:
                    ctx.check(None, nm, F, f"result not understood: {e}")


# ---- C02 -----------------------------------------------------------------------------------
def ret_obj(eng, st, v):
    """The node object behind a returned Expr/pointer/struct."""
    if isinstance(v, Ref):
        v = eng.read(st, v)
    if isinstance(v, Var) and v.tag is not None:
        v = v.val
    if isinstance(v, Ptr) and v.ref is not None:
        v = eng.read(st, v.ref)
    return v


def same(a, b):
    """Equality of abstract values: True / False / None (unknown)."""
    if isinstance(a, Top) or isinstance(b, Top) or has_top(a) or has_top(b):
        return None
    return a == b


def field_by_type(prog, cls, pred):
    r = prog.records.get(cls)
    return [f["n"] for f in r["fields"] if pred(f["t"])] if r else []


def interval_parts(eng, v):
    """(low, high) payloads of an Interval struct."""
    if not isinstance(v, Struct):
        return None
    xs = list(v.f.values())
    if len(xs) != 2:
        return None
    return tuple(x.val if isinstance(x, Var) else x for x in xs)


OPS = {"operator>": "GT", "operator>=": "GE", "operator<": "LT", "operator<=": "LE"}


def c02(ctx):
    """Constructors, factory functions, comparison operators and interval accessors are abstractly
    interpreted on symbolic arguments; each field of the object built on every path must be the value
    number of the argument it stands for; equality operators must return true exactly on the paths where
    all parts are equal; the unboundedness test must be true exactly when low is 0 and high is infinite."""
    prog = ctx.prog
    P = AST + "Predicate"
    nf, of, rf = (field_by_type(prog, P, f) for f in (lambda t: ptype(t)[0] == "std::basic_string",
                                                      lambda t: t in prog.enums, lambda t: t in REALS))
    if not (len(nf) == len(of) == len(rf) == 1):
        ctx.missing("Predicate{name, comparison, bound}")
    else:
        nf, of, rf = nf[0], of[0], rf[0]
        # comparisons
        for o, en in OPS.items():
            fs = ctx.fns(AST + o, lambda F: len(F.params) == 2 and strip_cvref(F.params[0]["t"]) == P)
            if not fs:
                ctx.missing(f"Predicate {o} double")
            for F in fs:
                r = ctx.analyse(F)
                n0, n1 = F.params[0]["n"], F.params[1]["n"]
                for p in r.paths:
                    if p.exc:
                        ctx.check(False if p.st.exact else None, o, F, f"throws {p.exc.ty}")
                        continue
                    v = ret_obj(r.eng, p.st, p.val)
                    if not isinstance(v, Struct):
                        ctx.check(None, o, F, "result not understood")
                        continue
                    want = {nf: Str(("fld", ("p", n0), nf)), rf: r.eng.sym("double", ("p", n1))}
                    for k, w in want.items():
                        ctx.check(exactly(p, same(v.f[k], w)), o, F, f"{k} is {v.f[k]!r}, has to be {w!r}")
                    op = v.f[of]
                    ok = isinstance(op, En) and op.val == en
                    ctx.check(exactly(p, None if isinstance(op, Top) else ok), o, F,
                              f"comparison is {getattr(op, 'val', op)!r}, has to be {en}")
                if not r.ok:
                    ctx.check(None, o, F, r.why)
        # constructor and factory
        for F in ctx.fns(P + "::Predicate"):
            if len(F.params) != 3:
                continue
            r = ctx.construct(F, P)
            for p in r.paths:
                v = p.val
                for q in F.params:
                    w = r.eng.sym(q["t"], ("p", q["n"]))
                    t = strip_cvref(q["t"])
                    k = nf if ptype(t)[0] == "std::basic_string" else of if t in prog.enums else rf
                    ctx.check(exactly(p, same(v.f[k], w) if isinstance(v, Struct) else None), "Predicate", F,
                              f"field {k} is {v.f[k]!r} for argument {q['n']}" if isinstance(v, Struct) else "?")
        for F in ctx.fns("signal_tl::Predicate"):
            r = ctx.analyse(F)
            for p in r.paths:
                v = ret_obj(r.eng, p.st, p.val)
                ctx.check(exactly(p, same(v.f[nf], Str(("p", F.params[0]["n"]))) if isinstance(v, Struct) else None),
                          "Predicate(name)", F, f"name is {getattr(v, 'f', {}).get(nf)!r}")
        equality(ctx, P, {nf: "s", of: "e", rf: "r"})
    C = AST + "Const"
    vf = field_by_type(prog, C, lambda t: t == "bool")
    if len(vf) == 1:
        equality(ctx, C, {vf[0]: "b"})
        for F in ctx.fns("signal_tl::Const"):
            r = ctx.analyse(F)
            for p in r.paths:
                v = ret_obj(r.eng, p.st, p.val)
                x = v.f[vf[0]] if isinstance(v, Struct) else Top("?")
                ctx.check(exactly(p, bool_is(p.st, x, B(("p", F.params[0]["n"])))), "Const", F, f"value is {x!r}")
        for F in ctx.fns(C + "::Const", lambda F: len(F.params) == 1 and strip_cvref(F.params[0]["t"]) == "bool"):
            r = ctx.construct(F, C)
            for p in r.paths:
                x = p.val.f[vf[0]] if isinstance(p.val, Struct) else Top("?")
                ctx.check(exactly(p, bool_is(p.st, x, B(("p", F.params[0]["n"])))), "Const", F, f"value is {x!r}")
    # temporal factories
    for name, n in (("Always", 1), ("Eventually", 1), ("Until", 2)):
        fs = ctx.fns("signal_tl::" + name)
        if len(fs) < 2:
            ctx.missing("signal_tl::" + name)
        for F in fs:
            r = ctx.analyse(F)
            if not r.ok:
                ctx.check(None, name, F, r.why)
            ops = [q for q in F.params if ptype(q["t"])[0] == "std::variant"]
            iv = [q for q in F.params if strip_cvref(q["t"]) == AST + "Interval"]
            for p in r.paths:
                temporal(ctx, r, p, F, name, ops, iv)
    # bare constructors of the nodes
    for name, n in (("Always", 1), ("Eventually", 1), ("Until", 2), ("Not", 1), ("And", 1), ("Or", 1)):
        for F in ctx.fns(f"{AST}{name}::{name}"):
            if not F.params or len(F.params) < n:
                continue
            r = ctx.construct(F, AST + name)
            ops = [q for q in F.params if ptype(q["t"])[0] in ("std::variant", "std::vector")]
            iv = [q for q in F.params if strip_cvref(q["t"]) == AST + "Interval"]
            if len(ops) != n:
                continue
            for p in r.paths:
                if p.exc:
                    continue          # C03
                node_fields(ctx, r, p, F, name, p.val, ops, iv)
    for name in ("Not", "And", "Or"):
        pass
    intervals(ctx)


def exactly(p, ok):
    if ok is True:
        return True
    if ok is None:
        return None
    return False if p.st.exact else None


def bool_is(st, x, want):
    if isinstance(x, Top):
        return None
    if x == want:
        return True
    if isinstance(x, bool):
        return st.bools.get(want.term) == x
    return False


def temporal(ctx, r, p, F, name, ops, iv):
    if p.exc:
        ctx.check(False if p.st.exact else None, name, F, f"throws {p.exc.ty}")
        return
    v = p.val
    if isinstance(v, Ref):
        v = r.eng.read(p.st, v)
    if isinstance(v, Var):
        kinds = alt_kinds(v.ty)
        if v.tag is None or kinds[v.tag] != name:
            ctx.check(None if v.tag is None and v.term is None else exactly(p, False), name, F,
                      f"builds {kinds[v.tag] if v.tag is not None else 'its own operand'}")
            return
    node_fields(ctx, r, p, F, name, ret_obj(r.eng, p.st, v), ops, iv)


def node_fields(ctx, r, p, F, name, o, ops, iv):
    if not isinstance(o, Struct):
        ctx.check(None, name, F, "node not understood")
        return
    if o.cls.split("::")[-1] != name:
        ctx.check(exactly(p, False), name, F, f"builds a {o.cls}")
        return
    flat = []
    intv = None
    for k, x in o.f.items():
        if isinstance(x, Struct) and x.cls == AST + "Interval":
            intv = x
        elif isinstance(x, Struct) and x.cls in ("std::pair", "std::tuple"):
            flat += [(f"{k}.{a}", b) for a, b in x.f.items()]
        else:
            flat.append((k, x))
    if len(flat) != len(ops):
        ctx.check(None, name, F, "operands not understood")
    else:
        for (k, x), q in zip(flat, ops):
            w = r.eng.sym(q["t"], ("p", q["n"]))
            ctx.check(exactly(p, same(x, w)), name, F, f"operand {k} is {short(x)}, has to be {q['n']}")
    if name in ("Not", "And", "Or"):
        return
    parts = interval_parts(r.eng, intv)
    if parts is None:
        ctx.check(None, name + ":interval", F, "interval not understood")
    elif iv:
        w = r.eng.sym(AST + "Interval", ("p", iv[0]["n"]))
        ctx.check(exactly(p, same(intv, w)), name + ":interval", F, f"interval is {short(intv)}, has to be {iv[0]['n']}")
    else:
        ok = parts == (ZERO, INF)
        ctx.check(exactly(p, None if has_top(intv) else ok), name + ":interval", F,
                  f"default interval is [{parts[0]!r}, {parts[1]!r}), has to be [0, inf)")


def short(x):
    from terms import show_key
    if isinstance(x, Var) and x.term is not None:
        return show_key(x.term)
    return repr(x)[:90]


def equality(ctx, cls, parts):
    """operator== true exactly where all parts are equal; != its negation."""
    for op in ("operator==", "operator!="):
        for F in ctx.fns(f"{cls}::{op}") + ctx.fns(f"signal_tl::ast::{op}", lambda F: F.params and strip_cvref(F.params[0]["t"]) == cls):
            key = cls.split("::")[-1] + " " + op[8:]
            r = ctx.analyse(F)
            if not r.ok:
                ctx.check(None, key, F, r.why)
            names = ["this"] + [q["n"] for q in F.params]
            a, b = names[-2:]
            for p in r.paths:
                if p.exc:
                    ctx.check(False if p.st.exact else None, key, F, "throws")
                    continue
                outs = r.eng.truth(p.st, p.val)
                for st, res in outs:
                    if st.facts.unsat():
                        continue
                    eq = [part_eq(r.eng, st, ("fld", ("p", a), k), ("fld", ("p", b), k), t) for k, t in parts.items()]
                    alleq = False if False in eq else (True if all(e is True for e in eq) else None)
                    want = alleq if op == "operator==" else (None if alleq is None else not alleq)
                    if want is None:
                        # outcome must not be fixed while a part is still open
                        ctx.check(False if st.exact else None, key, F,
                                  f"returns {res} without comparing {[k for k, e in zip(parts, eq) if e is None]}")
                    else:
                        ctx.check(exactly(p, res == want), key, F, f"returns {res} where equal parts = {eq}")


def part_eq(eng, st, a, b, kind):
    if kind == "b":
        x, y = st.bools.get(a), st.bools.get(b)
        return None if x is None or y is None else x == y
    if kind == "r":
        d = eng.sym("double", a) - eng.sym("double", b)
        if st.facts.entails("==", d):
            return True
        if st.facts.entails("!=", d):
            return False
        return None
    for term, val in list(st.bools.items()):
        if isinstance(term, tuple) and repr(a) in repr(term) and repr(b) in repr(term):
            return val
    x, y = st.ens.get(a), st.ens.get(b)
    return en_rel(st, a, b)


def en_rel(st, a, b):
    x, y = st.ens.get(a), st.ens.get(b)
    if x is not None and y is not None:
        if len(x) == 1 and tuple(x) == tuple(y):
            return True
        if not set(x) & set(y):
            return False
    return None


def intervals(ctx):
    prog = ctx.prog
    I = AST + "Interval"
    fs = [F for F in ctx.fns(I + "::Interval") if len(F.params) == 2]
    for F in fs:
        r = ctx.construct(F, I)
        for p in r.paths:
            if p.exc:
                continue
            parts = interval_parts(r.eng, p.val)
            w = tuple(r.eng.sym(q["t"], ("p", q["n"])) for q in F.params)
            ctx.check(exactly(p, None if parts is None else parts == w), "Interval", F,
                      f"holds {parts!r} for arguments {w!r}")
    for F in ctx.fns(I + "::Interval", lambda F: not F.params):
        r = ctx.construct(F, I)
        for p in r.paths:
            parts = interval_parts(r.eng, p.val)
            ctx.check(exactly(p, None if parts is None else parts == (ZERO, INF)), "Interval()", F, f"is {parts!r}")
    # accessors, by payload kinds
    for F in ctx.fns(I + "::as_double"):
        r = ctx.analyse(F)
        fl = [f["n"] for f in prog.records[I]["fields"]]
        for p in r.paths:
            if p.exc:
                ctx.check(exactly(p, False), "as_double", F, f"throws {p.exc.ty}")
                continue
            got = list(p.val.f.values()) if isinstance(p.val, Struct) else None
            want = [payload(r.eng, p.st, ("fld", ("p", "this"), k)) for k in fl]
            for g, w, k in zip(got or [None] * 2, want, fl):
                ok = None if g is None or w is None or not isinstance(g, R) else g == w
                ctx.check(exactly(p, ok), "as_double", F, f"{k} reported as {g!r}, is {w!r}")
    for qn, neg in ((I + "::is_zero_to_inf", False), (I + "::has_value", True)):
        for F in ctx.fns(qn):
            key = qn.split("::")[-1]
            r = ctx.analyse(F)
            if not r.ok:
                ctx.check(None, key, F, r.why)
            fl = [f["n"] for f in prog.records[I]["fields"]]
            for p in r.paths:
                if p.exc:
                    ctx.check(exactly(p, False), key, F, "throws")
                    continue
                for st, res in r.eng.truth(p.st, p.val):
                    if st.facts.unsat():
                        continue
                    lo, hi = (payload(r.eng, st, ("fld", ("p", "this"), k)) for k in fl)
                    st.facts.add("<=", -lo) if lo is not None else None
                    if lo is None or hi is None:
                        # a field whose kind was not even looked at
                        ctx.check(False if st.exact else None, key, F, f"returns {res} without looking at both bounds")
                        continue
                    # intervals satisfy 0 <= low < high (C03)
                    st.facts.add("<", lo - hi)
                    if st.facts.unsat():
                        continue
                    z = True if st.facts.entails("==", lo) else False if st.facts.entails("!=", lo) else None
                    if hi.is_int():
                        f = False
                    else:
                        f = True if st.facts.entails("==", hi - INF) else False if st.facts.entails("!=", hi - INF) else None
                    both = False if False in (z, f) else True if z is True and f is True else None
                    if both is None:
                        ctx.check(False if st.exact else None, key, F,
                                  f"returns {res} although " + ("low" if z is None else "high") + " may be anything")
                    else:
                        want = both != neg
                        ctx.check(exactly(p, res == want), key, F, f"returns {res} for low=0: {z}, high=inf: {f}")


def payload(eng, st, term):
    """Numeric payload of the variant field `term` on this path (None: kind unknown)."""
    k = st.alts.get(term)
    if not isinstance(k, int):
        return None
    return eng.sym(["unsigned long long", "double"][k], ("alt", term, k))


# ---- C03 ------------------------------------------------------------------------------------
def guard_consts(paths, names):
    cs = set()
    for p in paths:
        for (op, a, b), w in p.st.lits:
            for r in (a, b, a - b):
                for m, c in r.num.items():
                    if m == ():
                        cs.add(abs(c))
                    cs.add(abs(c))
    return cs


def c03(ctx):
    """The interval constructors are abstractly interpreted; which order type of the two bounds (relative
    to each other, to the constants in the guards, to infinity, and unordered for NaN) reaches the throw
    is enumerated from the recorded branch literals and compared with 0 <= low < high. For And/Or nodes
    the operand counts reaching the throw are compared with fewer than two."""
    I = AST + "Interval"
    fs = [F for F in ctx.fns(I + "::Interval") if len(F.params) == 2]
    if len(fs) < 2:
        ctx.missing("Interval(a, b)")
    for F in fs:
        r = ctx.construct(F, I)
        ints = strip_cvref(F.params[0]["t"]) in INTS
        key = "Interval(int,int)" if ints else "Interval(double,double)"
        if not r.ok:
            ctx.check(None, key, F, r.why)
            continue
        at = [r.eng.sym(q["t"], ("p", q["n"])).single().n for q in F.params]
        grid = set()
        for c in guard_consts(r.paths, at) | {0, 1}:
            c = float(c)
            grid |= {c, -c, c + 1, c - 1, c + 0.5, c - 0.5, -c - 1}
        if ints:
            grid = {float(int(g)) for g in grid if g >= 0} | {5.0, 6.0}
        else:
            grid |= {float("inf"), float("-inf"), float("nan"), 5.0, 6.0}
        for a, b in itertools.product(sorted(grid, key=repr), repeat=2):
            env = {at[0]: a, at[1]: b}
            env[INF.single().n] = float("inf")
            want = 0 <= a < b
            hit = [p for p in r.paths if consistent(p.st, env) is not False]
            ctx.count("order_types")
            if len(hit) != 1 or consistent(hit[0].st, env) is None:
                ctx.check(None, key, F, f"no single path for ({a}, {b}): {len(hit)}")
                continue
            ok = (hit[0].exc is None) == want
            ctx.check(exactly(hit[0], ok), key, F, f"({a}, {b}) is {'accepted' if hit[0].exc is None else 'rejected'}")
    for name in ("And", "Or"):
        fs = [F for F in ctx.fns(f"{AST}{name}::{name}") if F.params and ptype(F.params[0]["t"])[0] == "std::vector"]
        if not fs:
            ctx.missing(name + "(operands)")
        for F in fs:
            r = ctx.construct(F, AST + name)
            count_rule(ctx, r, F, name + " node", ("p", F.params[0]["n"]))
        for F in ctx.fns("signal_tl::" + name):
            r = ctx.analyse(F)
            count_rule(ctx, r, F, name + "(operands)", ("p", F.params[0]["n"]))


def count_rule(ctx, r, F, key, S):
    if not r.ok:
        ctx.check(None, key, F, r.why)
        return
    n = r.eng.size(S)
    for k in range(0, 6):
        hit = []
        for p in r.paths:
            f = p.st.facts.copy()
            f.add("==", n - R.c(k))
            if not f.unsat():
                hit.append(p)
        kinds = {p.exc is None for p in hit}
        if len(kinds) != 1:
            ctx.check(None, key, F, f"{k} operands: accepted and rejected paths")
            continue
        ok = (kinds == {True}) == (k >= 2)
        ctx.check(exactly(hit[0], ok), key, F, f"{k} operands are {'accepted' if kinds == {True} else 'rejected'}")
    # beyond: every larger count behaves alike
    for p in r.paths:
        f = p.st.facts.copy()
        f.add("<=", R.c(6) - n)
        if p.exc is not None and not f.unsat():
            ctx.check(exactly(p, False), key, F, "6 or more operands can be rejected")
