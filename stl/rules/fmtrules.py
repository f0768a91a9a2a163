"""C18: what printing a formula writes, per kind, as a template over the parts of the node."""
import re
from terms import R, IK, INF, ZERO, ATOMS, show_key, size
from values import *
from model import strip_cvref, REALS, ptype
from rules.common import AST, expr_type, alt_kinds
import engine as _engine
from stdlib import str_pieces

KINDS = ["Const", "Predicate", "Not", "And", "Or", "Always", "Eventually", "Until"]
SYMS = {"GT": ">", "GE": ">=", "LT": "<", "LE": "<="}
LETTER = {"Always": "G", "Eventually": "F", "Until": "U"}


def exact_spec(kind, spec, isint):
    """Does the format specification show the whole value? None: not known."""
    if spec == "":
        return True
    m = re.fullmatch(r"(?:.?[<>^])?[+\- ]?#?0?(\d*)(\.\d+)?([a-zA-Z]?)", spec)
    if not m:
        return None
    prec = int(m.group(2)[1:]) if m.group(2) else None
    ty = m.group(3)
    if kind == "str":
        return prec is None if ty in ("", "s") else None
    if kind == "bool":
        return True if ty in ("", "s", "d") and prec is None else None
    if isint:
        return True if ty in ("", "d", "x", "X", "o", "b") else None
    if ty in ("a", "A"):
        return prec is None or prec >= 13
    if ty == "":
        return prec is None or prec >= 17
    if ty in ("g", "G"):
        return prec is not None and prec >= 17
    if ty in ("e", "E"):
        return prec is not None and prec >= 16
    if ty in ("f", "F"):
        return False
    return None


def parts_of(eng, st, root, cls):
    """{part name: ('str'|'num'|'bool'|'obj'|'seq'|'enum'|'interval', canonical)} of a node."""
    out = {}
    v = eng.read(st, Ref(root))
    if not isinstance(v, Struct):
        return None

    def put(name, x, ref):
        if isinstance(x, Struct) and x.cls == AST + "Interval":
            out[name] = ("interval", x)
        elif isinstance(x, Struct) and x.cls in ("std::pair", "std::tuple"):
            for k, y in x.f.items():
                put(f"{name}.{k}", y, ref + (k,))
        elif isinstance(x, Str):
            out[name] = ("str", x.term)
        elif isinstance(x, R):
            out[name] = ("num", IK(x))
        elif isinstance(x, En):
            out[name] = ("enum", x)
        elif isinstance(x, (bool, B)):
            out[name] = ("bool", eng.term(st, x), x)
        elif isinstance(x, Seq):
            out[name] = ("seq", tuple(x.segs))
        else:
            out[name] = ("obj", eng.term(st, x))
    for k, x in v.f.items():
        put(k, x, Ref(root) + (k,))
    return out


def pieces_of(st):
    g = st.cells.get(("ghost", "out"))
    if g is None:
        return []
    return str_pieces(g.term) if isinstance(g, Str) else [("?", "lost")]


def cases(ctx, eng0_args, p, iv):
    """(facts, a, b) for every way the bounds of the interval can be stored, consistent with the path."""
    fs = ctx.fns(AST + "Interval::as_double")
    if not fs:
        return None
    q = ctx.analyse(fs[0], this=iv)
    out = []
    for x in q.returns:
        v = x.val if not isinstance(x.val, Ref) else q.eng.read(x.st, x.val)
        if not isinstance(v, Struct) or len(v.f) != 2:
            return None
        a, b = v.f.values()
        if not isinstance(a, R) or not isinstance(b, R):
            return None
        if any(p.st.alts.get(k, n) != n for k, n in x.st.alts.items()):
            continue
        f = p.st.facts.copy()
        for rel, z in x.st.facts.items:
            f.add(rel, z)
        f.add("<=", -a)
        f.add("<", a - b)
        f.add("<" if b.is_int() else "<=", b - INF)
        f.add("<", a - INF)
        if not f.unsat():
            out.append((f, a, b))
    return out


class Shape:
    """One printed template: tokens ('lit', text) and ('part', name)."""

    def __init__(self, kind, what, toks, F):
        self.kind, self.what, self.toks, self.F = kind, what, toks, F

    def text(self):
        return txt(self.toks)

    def generic(self):
        """The template with the parts replaced by their class; blanks between tokens do not count."""
        out = []
        for t in self.toks:
            out.append(t[1].replace(" ", "") if t[0] == "lit" else "{E" + t[3].replace(" ", "") + "..}" if t[2] == "E*" and t[3] else "{" + t[2] + "}")
        return "".join(out)


def c18(ctx):
    """The formatter of every formula kind is interpreted abstractly (both the fmt formatters and operator<<); what it
    writes is reduced to a template of literal text and holes. Every part of the node must be a hole, in order and with
    a format specification that loses nothing, next to the symbol of its own operator; the bounds must be shown exactly
    when the interval is not [0, inf); templates of different kinds must differ, and every template must delimit its
    operands (prefix, or bracketed infix), so that the text determines the formula."""
    shapes = []
    for kind in KINDS:
        fs = ctx.fns(f"fmt::formatter<{AST}{kind}>::format")
        if not fs:
            ctx.missing(f"formatter of {kind}")
            continue
        F = fs[0]
        rs = [(None, ctx.analyse(F))] if kind != "Predicate" else [(op, ctx.analyse(F, args=[node(ctx, F, op)])) for op in SYMS]
        for op, r in rs:
            if not r.ok:
                ctx.check(None, kind, F, r.why)
                continue
            for p in r.paths:
                one(ctx, shapes, kind, op, F, r, p)
    expressions(ctx)
    # distinct templates, delimited operands
    seen = {}
    for s in shapes:
        g = s.generic()
        o = seen.get(g)
        if o is None:
            seen[g] = s
        elif (o.kind, o.what) != (s.kind, s.what):
            ctx.check(False, f"same:{s.kind}", s.F, f"{s.kind} {s.what} and {o.kind} {o.what} are both printed as '{s.text()}'")
    ctx.check(True, "distinct", shapes[0].F if shapes else None, f"{len(seen)} templates compared pairwise")
    for s in shapes:
        es = [n for n, t in enumerate(s.toks) if t[0] == "part" and t[2] in ("E", "E*")]
        if not es:
            continue
        t0, t1 = s.toks[0], s.toks[-1]
        closed = t0[0] == "lit" and t1[0] == "lit" and t0[1].lstrip()[:1] + t1[1].rstrip()[-1:] in ("()", "[]", "{}", "<>") \
            and balanced(s.toks)
        multi = len(es) > 1 or s.toks[es[0]][2] == "E*"
        if multi or es[-1] != len(s.toks) - 1:
            ctx.check(closed or (False if multi and (t0[0] != "lit" or t1[0] != "lit") else None), f"{s.kind}:delimited", s.F,
                      f"'{s.text()}' " + ("is bracketed" if closed else "is not bracketed: its operands run together with what surrounds it"))
        else:
            ctx.check(t0[0] == "lit" and bool(t0[1].strip()), f"{s.kind}:delimited", s.F, f"'{s.text()}' starts with its own symbol")


def balanced(toks):
    depth = 0
    for n, t in enumerate(toks):
        if t[0] != "lit":
            if depth == 0:
                return False
            continue
        # half-open intervals are written [a, inf): brackets and parentheses close each other
        for m, c in enumerate(t[1]):
            if c in "([":
                depth += 1
            elif c in ")]":
                depth -= 1
            if depth == 0 and not (n == len(toks) - 1 and m == len(t[1].rstrip()) - 1):
                return False
    return depth == 0


def node(ctx, F, op):
    """A symbolic predicate with the given comparison."""
    eng = _engine.Engine(ctx.prog)
    v = eng.sym(strip_cvref(F.params[0]["t"]), ("p", F.params[0]["n"] or "#0"))
    if isinstance(v, Struct):
        for k, x in v.f.items():
            if isinstance(x, En):
                return v.with_(k, En(x.en, op))
    return v


CLOSED = {"fld", "alt", "p", "lit", "cast", "op", "substr", "pieces", "cat", "num", "str", "inf", "tostr", "elem", "base", "item", "splice", "size"}


def closed(t):
    """Is the term made of the parts of the node only (nothing unknown)?"""
    if isinstance(t, R):
        return all(closed(a.key) for a in r_atoms(t))
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] not in CLOSED and len(t) > 1 and not all(isinstance(x, tuple) for x in t):
            return t == ("inf",)
        return all(closed(x) for x in t if isinstance(x, (tuple, R)) or hasattr(x, "num"))
    if hasattr(t, "num"):
        return all(closed(a.key) for a in r_atoms(t))
    return True


def r_atoms(r):
    r = getattr(r, "r", r)
    out = []
    for pol in (r.num, r.den):
        for m in pol:
            for a, _ in m:
                out.append(ATOMS[a])
    return out


def show_piece(q):
    if q[0] == "num":
        return f"number {q[1]!r}" + (f" formatted with '{q[2]}'" if q[2] else "")
    if q[0] == "str":
        return "text " + show_key(q[1])[:60]
    return str(q[0])


def one(ctx, shapes, kind, op, F, r, p):
    eng, st = r.eng, p.st
    key = kind if op is None else f"{kind} {op}"
    if p.exc:
        ctx.check(False if st.exact else None, key + ":throws", F, f"printing throws {p.exc.ty}")
        return
    parts = parts_of(eng, st, ("in", F.params[0]["n"] or "#0"), AST + kind)
    if parts is None:
        ctx.check(None, key, F, "node not understood")
        return
    iv = [x[1] for x in parts.values() if x[0] == "interval"]
    cs = [(st.facts, None, None)]
    if iv:
        cs = cases(ctx, eng, p, iv[0])
        if cs is None:
            ctx.check(None, key, F, "interval not understood")
            return
    ps = pieces_of(st)
    line = next((e.line for e in reversed(r.events) if e.kind == "format" and e.st is st), None)
    where = F
    for f, a, b in cs:
        full = a is not None and f.entails("==", a) and f.entails("==", b - INF)
        decided = a is None or full or contradicts(f, a, b)
        toks, bad, unk = [], [], []
        for q in ps:
            if q[0] == "lit":
                toks.append(("lit", q[1]))
                continue
            if q[0] == "?":
                unk.append(f"{q[1]} not understood")
                toks.append(("part", "?", "?"))
                continue
            name = None
            cls = None
            if q[0] == "join":
                for k, x in parts.items():
                    if x[0] == "seq" and x[1] == q[1]:
                        name, cls = k, "E*"
                sep = q[2]
                if q[3]:
                    unk.append(f"format specification {q[3]}")
                if sep[0] != "lit":
                    unk.append("separator not understood")
                toks.append(("part", name or "?", "E*", sep[1] if sep[0] == "lit" else None))
                if name is None:
                    (bad if closed(q[1]) else unk).append("prints something else than all the operands in order")
                continue
            if q[0] == "num" and a is not None and q[1] in (IK(a), IK(b)):
                name = "a" if q[1] == IK(a) else "b"
                cls = "num"
            elif q[0] == "num" and a is not None and f.entails("==", q[1] - b if hasattr(q[1], "num") else R.c(1)):
                name, cls = "b", "num"
            if name is None:
                for k, x in parts.items():
                    if x[0] == q[0] and (x[1] == q[1] or x[0] == "bool" and q[1] == ("val", str(decided_bool(eng, st, x[2])))):
                        name = k
                        cls = {"obj": "E", "num": "num", "str": "name", "bool": "bool"}[q[0]]
            if name is None:
                (bad if q[0] in ("num", "str") and closed(q[1]) or q[0] == "bool" and q[1][0] == "val" and q[1][1] in ("True", "False") else unk).append(f"prints {show_piece(q)} instead of a part of the node")
                toks.append(("part", "?", "?"))
                continue
            spec = q[2] if q[0] != "obj" else q[3]
            ex = exact_spec(q[0], spec, q[0] == "num" and q[3]) if q[0] != "obj" else (True if spec == "" else None)
            if ex is False:
                bad.append(f"{name} is printed with '{{:{spec}}}', which rounds it")
            elif ex is None:
                unk.append(f"format specification {spec}")
            toks.append(("part", name, cls))
        order = [t[1] for t in toks if t[0] == "part"]
        want = [k for k, x in parts.items() if x[0] not in ("interval", "enum")
                and not (x[0] == "seq" and len(x[1]) == 1 and x[1][0][0] == "base" and f.entails("==", size(x[1][0][1])))]
        what = op or ""
        if kind == "Const" and not order and want:
            # the value may be spelled out instead of formatted
            v = decided_bool(eng, st, parts[want[0]][2]) if parts[want[0]][0] == "bool" else None
            if v is not None:
                what, want = str(v).lower(), []
        if a is not None:
            inf_b = f.entails("==", b - INF)
            shows = [t for t in toks if t[0] == "part" and t[1] in ("a", "b")]
            what = "unbounded" if full else "bounded" if decided else "possibly unbounded"
            names = [t[1] for t in shows]
            if full:
                ok, why = not names and not re.search(r"inf", lits(toks)), "shows bounds although there are none"
            else:
                lit_inf = inf_after(toks)
                if inf_b and "a" in names and "b" not in names and lit_inf:
                    ok, why = names == ["a"], ""
                    what = "half-open"
                else:
                    ok, why = names == ["a", "b"], "does not show both bounds in order" if names != [] else "does not show the bounds"
                if not names and not decided:
                    # may be taken with and without bounds
                    ok = False if not f_never_bounded(f, a, b) else True
            ctx.check(ok if ok else (False if st.exact and not unk else None), f"{key}:bounds", where,
                      f"'{txt(toks)}' " + (why if not ok and why else f"for an interval that is {what}"))
            order = [x for x in order if x not in ("a", "b")]
        else:
            want = order_of(want, kind)
        for x in bad:
            ctx.check(False if st.exact else None, f"{key}:parts", where, f"'{txt(toks)}': {x}")
        for x in unk:
            ctx.check(None, f"{key}:parts", where, f"'{txt(toks)}': {x}")
        if not bad and not unk:
            ok = order == want if kind != "Predicate" else sorted(order) == sorted(want) and order == pred_order(parts)
            ctx.check(ok or (False if st.exact else None), f"{key}:parts", where,
                      f"'{txt(toks)}' " + (f"shows {', '.join(want)}" if ok else f"shows {', '.join(order) or 'nothing'}, has to show {', '.join(want)} once, in this order"))
            if kind in ("And", "Or") and not want:
                continue
            symbol(ctx, kind, op, toks, key, where, st)
            if not any(s.kind == kind and s.what == what and s.toks == toks for s in shapes):
                shapes.append(Shape(kind, what, toks, F))


def order_of(want, kind):
    return want


def pred_order(parts):
    n = [k for k, x in parts.items() if x[0] == "str"]
    return n + [k for k, x in parts.items() if x[0] == "num"]


def decided_bool(eng, st, x):
    bs = {b for _, b in eng.truth(st.copy(), x)}
    return bs.pop() if len(bs) == 1 else None


def f_never_bounded(f, a, b):
    g = f.copy()
    g.add("<", -a)
    h = f.copy()
    h.add("<", b - INF)
    return g.unsat() and h.unsat()


def contradicts(f, a, b):
    g = f.copy()
    g.add("==", a)
    g.add("==", b - INF)
    return g.unsat()


def lits(toks):
    return " ".join(t[1] for t in toks if t[0] == "lit")


def txt(toks):
    out = ""
    for t in toks:
        if t[0] == "lit":
            out += t[1]
        elif t[2] == "E*":
            out += f"{{{t[1]} joined by '{t[3]}'}}"
        else:
            out += "{" + t[1] + "}"
    return out


def inf_after(toks):
    """Is the upper bound written as the word inf behind the lower one?"""
    for n, t in enumerate(toks[:-1]):
        if t[0] == "part" and t[1] == "a" and toks[n + 1][0] == "lit":
            return re.match(r"[^A-Za-z0-9]*inf", toks[n + 1][1]) is not None
    return False


def symbol(ctx, kind, op, toks, key, where, st):
    def verdict(ok, sym):
        ctx.check(ok or (False if st.exact else None), f"{key}:symbol", where, f"'{txt(toks)}' " + ("shows" if ok else "does not show") + f" {sym}")
    if kind == "Predicate":
        idx = [n for n, t in enumerate(toks) if t[0] == "part"]
        between = "".join(t[1] for t in toks[idx[0] + 1:idx[1]] if t[0] == "lit").strip() if len(idx) == 2 else "?"
        verdict(between == SYMS[op], f"'{SYMS[op]}' between name and bound")
    elif kind in LETTER:
        es = [n for n, t in enumerate(toks) if t[0] == "part" and t[2] == "E"]
        if kind == "Until":
            seg = "".join(t[1] for t in toks[es[0] + 1:es[1]] if t[0] == "lit") if len(es) == 2 else ""
        else:
            seg = "".join(t[1] for t in toks[:es[0]] if t[0] == "lit") if es else ""
        words = re.findall(r"[A-Za-z]+", seg)
        words = [w for w in words if w != "inf"]
        verdict(words == [LETTER[kind]], f"the symbol {LETTER[kind]}")
    elif kind in ("And", "Or"):
        seps = [t[3].strip() for t in toks if t[0] == "part" and t[2] == "E*" and t[3] is not None]
        other = [t[1] for t in toks if t[0] == "lit"]
        verdict(bool(seps and seps[0] and seps[0] not in (",", ";")) or any(re.search(r"[^\s(){}\[\],]", o) for o in other), "a symbol of its own")
    elif kind == "Not":
        verdict(any(re.search(r"[^\s(){}\[\],]", t[1]) for t in toks if t[0] == "lit"), "a symbol of its own")


def expressions(ctx):
    """An expression prints as the node it holds, through the formatter and through operator<<."""
    ty = expr_type(ctx.prog)
    kinds = alt_kinds(ty)
    todo = []
    for q in ctx.prog.by_qn:
        if q.startswith("fmt::formatter<std::variant<") and q.endswith("::format"):
            todo += [(F, 0) for F in ctx.fns(q)[:1]]
    for F in ctx.fns("operator<<") + ctx.fns(AST + "operator<<") + ctx.fns("signal_tl::operator<<"):
        if len(F.params) == 2 and "ostream" in F.params[0]["t"] and strip_cvref(F.params[1]["t"]).startswith("std::variant"):
            todo.append((F, 1))
    if not todo:
        ctx.missing("formatter of Expr")
    for F, n in todo:
        r = ctx.analyse(F)
        if not r.ok:
            ctx.check(None, "Expr", F, r.why)
            continue
        root = ("p", F.params[n]["n"] or f"#{n}")
        met = set()
        for p in r.paths:
            if p.exc:
                ctx.check(False if p.st.exact else None, "Expr:throws", F, f"printing throws {p.exc.ty}")
                continue
            tag = p.st.alts.get(root)
            ps = pieces_of(p.st)
            if tag is None:
                ctx.check(None, "Expr", F, "alternative not decided on a path")
                continue
            met.add(tag)
            K = kinds[tag]
            if len(ps) == 1 and ps[0][0] == "obj":
                cls = ps[0][2].split("::")[-1]
                inner = r.eng.sym(AST + K, ("alt", root, tag))
                tmp = r.eng.alloc(p.st, inner, "want")
                ok = cls == K and ps[0][1] == r.eng.term(p.st, tmp) and ps[0][3] == ""
                ctx.check(ok or (False if p.st.exact and ps[0][3] == "" else None), f"Expr {K}", F, f"an expression holding {K} prints " + ("it" if ok else f"a {cls} that is not its own node"))
            else:
                unk = any(q[0] == "?" for q in ps) or any(q[0] == "obj" for q in ps)
                ctx.check(None if unk or not p.st.exact else False, f"Expr {K}", F, f"an expression holding {K} prints {[show_piece(q) for q in ps]}")
        if met and len(met) < len(kinds):
            ctx.check(None, "Expr", F, f"alternatives {[kinds[k] for k in range(len(kinds)) if k not in met]} not seen")
