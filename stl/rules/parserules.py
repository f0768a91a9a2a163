"""C15-C17: what the grammar accepts and what the semantic actions build from it."""
import itertools
import peg
from rules.astrules import Den, Unknown, interval_parts, wellformed
from rules.common import *

NS = "signal_tl::parser::"
FLIP = {"LT": "GT", "GT": "LT", "LE": "GE", "GE": "LE"}
SYM = {"<": "LT", "<=": "LE", ">": "GT", ">=": "GE"}
ARITY = {"not": (1, 1), "and": (2, None), "or": (2, None), "implies": (2, 2), "iff": (2, 2), "xor": (2, 2), "always": (1, 1),
         "eventually": (1, 1), "until": (2, 2)}
TEMPORAL = {"always": "Always", "eventually": "Eventually", "until": "Until"}


class Wrong(Exception):
    """Something definitely different from what the text says."""


# ---- the expected side: terms as tuples ----------------------------------------------------
class Fresh:
    def __init__(self):
        self.n = itertools.count(1)

    def id(self):
        return ("I", next(self.n))

    def num(self, form="D"):
        """A numeral: D stands for a run of digits."""
        return tuple(("D", next(self.n)) if c == "D" else ("c", c) for c in form)

    def pred(self, op="<", order="xc", num="D"):
        return ("pred", op, self.id(), self.num(num), order)


def tokens(t):
    """Tokens of a term; a token is a tuple of symbols."""
    k = t[0]
    if k in ("true", "false"):
        return [word(k)]
    if k == "ref":
        return [ident(t[1])]
    if k in ("T", "T*"):
        return [((k, t[1]),)]
    if k == "paren":
        return [word("(")] + tokens(t[1]) + [word(")")]
    if k == "pred":
        a, b = [ident(t[2])], [t[3]]
        return [word("("), word(t[1])] + (a + b if t[4] == "xc" else b + a) + [word(")")]
    out = [word("("), word(k)]
    for x in t[1:]:
        out += tokens(x)
    return out + [word(")")]


def word(s):
    return tuple(("c", c) for c in s)


def ident(i):
    return (i,) if isinstance(i, tuple) else word(i)


def idkey(i):
    return ("id", i[1]) if isinstance(i, tuple) else ("lit", i)


def cmd(kw, name, t):
    return [word("("), word(kw), ident(name)] + tokens(t) + [word(")")]


def wordlike(s):
    return s[0] in "ID" or s[0] == "c" and (s[1].isalnum() or s[1] == "_")


SPACES = {"min": (), "space": (("W", 0),), "comment": (("c", ";"), ("X", 0), ("c", "\n")), "newline": (("c", "\n"),)}


def layout(toks, style="space", edge=True):
    """The tokens as one sentential form, with white space of the given style between them."""
    gap = SPACES[style]
    out = list(gap) if edge else []
    for n, t in enumerate(toks):
        if n and toks[n - 1][-1][0] not in ("T", "T*"):
            # a term includes the white space after it
            a, b = toks[n - 1][-1], t[0]
            glue = wordlike(a) and (wordlike(b) or b[0] in ("T", "T*"))
            out += gap if gap else [("c", " ")] if glue else []
        out += t
    return out + (list(gap) if edge else [])


def show(form):
    return "".join({"c": s[1], "I": f"<id{s[1]}>", "D": f"<digits{s[1]}>", "W": " ", "X": "<text>", "T": f"<term{s[1]}> ", "T*": f"<terms{s[1]}> "}[s[0]] for s in form)


# ---- denotations -----------------------------------------------------------------------------
def canon(f):
    """Canonical form of a boolean combination of atoms."""
    ats = {}

    def walk(g):
        if g[0] == "atom":
            ats.setdefault(g[1], len(ats))
        elif g[0] != "const":
            for x in g[1:]:
                walk(x)
    walk(f)
    names = sorted(ats, key=repr)
    if len(names) > 10:
        raise Unknown("too many operands")
    from rules.astrules import value
    rows = {bits: value(f, dict(zip(names, bits))) for bits in itertools.product((False, True), repeat=len(names))}
    keep = [n for n in range(len(names))
            if any(v != rows[b[:n] + (not b[n],) + b[n + 1:]] for b, v in rows.items())]
    tab = tuple(sorted({tuple(b[n] for n in keep) for b, v in rows.items() if v}))
    return (tuple(names[n] for n in keep), tab)


def want(t, env):
    k = t[0]
    if k in ("true", "false"):
        return ("const", k == "true")
    if k == "ref":
        return env[t[1]]
    if k == "T":
        return env["T"](t[1])
    if k == "paren":
        return want(t[1], env)
    if k == "pred":
        op = SYM[t[1]]
        return ("atom", ("pred", idkey(t[2]), FLIP[op] if t[4] == "cx" else op, t[3]))
    xs = [("atom", ("list", k.capitalize(), ("terms", x[1]))) if x[0] == "T*" else want(x, env) for x in t[1:]]
    if k in TEMPORAL:
        return ("atom", ("temporal", TEMPORAL[k], "unbounded") + tuple(canon(x) for x in xs))
    return (k,) + tuple(xs)


class Tree(Den):
    def node(self, v, kind=None):
        if isinstance(v, Struct) and v.cls.split("::")[-1] == "Predicate":
            if not any(isinstance(x, En) and not isinstance(x.val, str) for x in v.f.values()):
                return self.predicate(v)
        if isinstance(v, Ptr) and v.ref is not None:
            o = self.eng.read(self.st, v.ref)
            if isinstance(o, Struct):
                name = o.cls.split("::")[-1]
                if name in TEMPORAL.values() and v.ref.root[0] != "obj":
                    return self.temporal(o, name)
        return super().node(v, kind)

    def predicate(self, v):
        name = op = num = None
        for x in v.f.values():
            if isinstance(x, Str):
                name = x.term
            elif isinstance(x, En):
                op = x
            elif isinstance(x, R):
                num = x
            else:
                raise Unknown("predicate field " + type(x).__name__)
        if name is None or op is None or num is None:
            raise Unknown("predicate fields")
        return ("atom", ("pred", name, enval(self.st, op), numeral(num)))

    def temporal(self, o, name):
        flat, iv = [], None
        for x in o.f.values():
            if isinstance(x, Struct) and x.cls.split("::")[-1] == "Interval":
                iv = interval_parts(self.eng, x)
            elif isinstance(x, Struct) and x.cls in ("std::pair", "std::tuple"):
                flat += list(x.f.values())
            else:
                flat.append(x)
        if iv is None or any(has_top(x) for x in iv):
            raise Unknown("interval")
        shape = "unbounded" if iv == (ZERO, INF) else repr(iv)
        return ("atom", ("temporal", name, shape) + tuple(canon(self.expr(x)) for x in flat))


def enval(st, e):
    for a in ("name", "val", "v"):
        if isinstance(getattr(e, a, None), str):
            return getattr(e, a).split("::")[-1]
    raise Unknown("comparison")


WIDE = {"l", "d"}


def numeral(num):
    """The text a number was read from, without white space after it."""
    c = num.const()
    if c is not None:
        raise Wrong(f"a numeral is replaced by the constant {c}")
    a = single(num)
    if a is None:
        raise Unknown("value of a numeral")
    key = a.key
    if key[0] == "stonum-base":
        raise Wrong(f"a numeral is read in base {key[2]}, not 10")
    if key[0] == "op" and key[1] in ("&", "|", "^", "%", "<<", ">>"):
        x, c = (single(k.r) if isinstance(k, IK) else None for k in key[2:4]), [k.r.const() for k in key[2:4] if isinstance(k, IK)]
        neutral = {"&": -1, "|": 0, "^": 0, "<<": 0, ">>": 0}.get(key[1])
        if len(c) == 2 and c[0] is None and c[1] is not None and c[1] != neutral and (a := next(iter(x), None)) is not None and a.key[0] == "stonum":
            raise Wrong(f"a numeral is changed by {key[1]} {c[1]}")
    if key[0] != "stonum":
        raise Unknown("value of a numeral")
    text, how = key[1], key[2]
    if text[0] == "lit":
        syms = word(text[1])
    elif text[0] == "txt" and text[1] != "part":
        syms = text[1]
    else:
        raise Unknown("text of a numeral")
    syms = list(syms)
    skip = len(syms)
    while skip and not number_symbol(syms[skip - 1]):
        skip -= 1
    # a comment may follow: cut at the first symbol that is not part of a number
    for n, s in enumerate(syms):
        if not number_symbol(s):
            skip = min(skip, n)
            break
    syms = tuple(syms[:skip])
    if how not in WIDE:
        raise Wrong(f"a numeral is read as {how}, which does not hold every value a double holds")
    if how == "l" and any(s[0] != "D" for s in syms):
        raise Wrong("a real numeral is read as an integer")
    return syms


def number_symbol(s):
    return s[0] == "D" or s[0] == "c" and (s[1] in "+-.eE" or s[1].isdigit())


def single(num):
    """The atom a value consists of, if the value is exactly one atom."""
    from terms import ATOMS
    for a in ATOMS:
        if R.a(a) == num:
            return a
    return None


# ---- one form ----------------------------------------------------------------------------------
class Forms:
    """Runs forms through the parser's entry point and compares what comes out."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.G = peg.Grammar(ctx.prog)
        self.ety = expr_type(ctx.prog)
        fs = ctx.fns(NS + "from_string")
        self.F = fs[0] if fs else None
        if self.F is None:
            ctx.missing(NS + "from_string")
        self.cache = {}
        self.failed = 0

    def run(self, form, F=None, **kw):
        d = peg.Driver(self.G, form, **kw)

        def prep(eng, st):
            eng.peg = d
        try:
            r = self.ctx.analyse(F or self.F, prep=prep, max_steps=200000)
        except peg.Unsupported as e:
            self.ctx.count("forms_undecided")
            return None, d, f"the grammar is not understood: {e}"
        self.ctx.count("forms")
        if not r.ok:
            return None, d, r.why
        return r, d, ""

    def trail(self, d):
        out = []
        for rule, F in (d.run.applied if d.run else []):
            w = f"{self.ctx.loc(F).split(' ')[0]}"
            if w not in out:
                out.append(w)
        return "; actions: " + ", ".join(out[-6:]) if out else ""

    def rejects(self, key, form, why):
        """No path may return."""
        r, d, e = self.run(form)
        w = self.F
        t = f"{why}: {show(form)!r}"
        if r is None:
            self.ctx.check(None, key, w, f"{t}: {e}")
            return
        if not d.calls:
            self.ctx.check(None, key, w, f"{t}: the parser is never called")
            return
        bad = [p for p in r.paths if not p.exc]
        if not bad and not r.paths:
            self.ctx.check(None, key, w, f"{t}: no path")
        elif not bad:
            self.ctx.check(True, key, w, f"{t}: every path throws")
        else:
            ok = False if any(p.st.exact for p in bad) else None
            self.ctx.check(ok, key, w, f"{t} is accepted" + self.trail(d))

    def accepts(self, key, form, formulas, assertions, env=None):
        """Every path returns a specification with exactly these formulas and assertions.
        Both are lists of (name, term); names already defined are references."""
        r, d, e = self.run(form)
        w = self.F
        t = f"{show(form)!r}"
        if r is None:
            self.ctx.check(None, key, w, f"{t}: {e}")
            return
        if not d.calls or not r.paths:
            self.ctx.check(None, key, w, f"{t}: the parser is never called")
            return
        worst = True
        msg = "builds what it says"
        for p in r.paths:
            ok, m = self.result(r, p, formulas, assertions)
            if ok is not True and not p.st.exact:
                ok = None
            if worst is True and ok is not True or worst is None and ok is False:
                worst, msg = ok, m
        self.ctx.check(worst, key, w, f"{t}: {msg}" + (self.trail(d) if worst is False else ""))

    def result(self, r, p, formulas, assertions):
        if p.exc:
            return False, f"is rejected ({p.exc.ty} {' '.join(str(a.term[1]) for a in p.exc.args if isinstance(a, Str) and a.term[0] == 'lit')[:100]})"
        eng, st = r.eng, p.st
        v = eng.read(st, p.val) if isinstance(p.val, Ref) else p.val
        if isinstance(v, Ptr) and v.ref is None:
            return False, "returns a null pointer"
        if not isinstance(v, Ptr):
            return None, "result not understood"
        o = eng.read(st, v.ref)
        if not isinstance(o, Struct):
            return None, "result not understood"
        maps = {k: x for k, x in o.f.items() if isinstance(x, MapV)}
        got = []
        for n in ("formulas", "assertions"):
            if n not in maps:
                return None, "fields of the specification not understood"
            got.append(maps[n])
        env = {}
        try:
            for name, t in formulas:
                env[name] = want(t, env)
            wants = [env, {name: want(t, env) for name, t in assertions}]
            for m, ex, what, tr in zip(got, wants, ("formula", "assertion"), (formulas, assertions)):
                ok, msg = self.same_map(eng, st, m, ex, what)
                if ok is not True:
                    return ok, msg
        except Wrong as x:
            return False, str(x)
        except Unknown as x:
            return None, f"not understood: {x}"
        return True, ""

    def same_map(self, eng, st, m, ex, what):
        if m.name is not None:
            return None, f"the {what}s are not a fresh map"
        seen = {}
        for key, val, how in m.ins:
            k = eng.read(st, key) if isinstance(key, Ref) else key
            if not isinstance(k, Str) or k.term[0] not in ("id", "lit"):
                return None, f"name of a {what} not understood"
            seen[k.term] = val
        names = {idkey(i): i for i in ex}
        extra = [k for k in seen if k not in names]
        miss = [k for k in names if k not in seen]
        if extra:
            return False, f"a {what} is recorded under {extra[0][1]!r}, which the text does not define"
        if miss:
            return False, f"{what} {miss[0][1]!r} is not in the specification"
        T = Tree(eng, st, self.ety)
        for k, i in names.items():
            g = T.expr(seen[k])
            if canon(g) != canon(ex[i]):
                return False, f"{what} {k[1]!r} denotes {say(g)}, has to denote {say(ex[i])}"
            if not in_order(g, ex[i]):
                return False, f"{what} {k[1]!r} has its operands in another order than written"
        return True, ""


def flat(f, k):
    if f[0] != k:
        return [f]
    return [y for x in f[1:] for y in flat(x, k)]


def in_order(g, w):
    """Operands of and/or in written order, where the same connective was built."""
    if g[0] == w[0] and g[0] in ("and", "or"):
        a, b = flat(g, g[0]), flat(w, w[0])
        ca, cb = [canon(x) for x in a], [canon(x) for x in b]
        if ca != cb:
            return sorted(map(repr, ca)) != sorted(map(repr, cb))
        return all(in_order(x, y) for x, y in zip(a, b))
    if g[0] == w[0] == "not":
        return in_order(g[1], w[1])
    return True


def say(f):
    k = f[0]
    if k == "const":
        return str(f[1]).lower()
    if k == "atom":
        a = f[1]
        if a[0] == "pred":
            return f"{a[1][1]} {a[2]} {show(a[3])}"
        if a[0] == "temporal":
            return f"{a[1]}({', '.join(say_canon(x) for x in a[3:])})" + ("" if a[2] == "unbounded" else f" over {a[2]}")
        return str(a)[:80]
    return "(" + k + " " + " ".join(say(x) for x in f[1:]) + ")"


def say_canon(c):
    names, tab = c
    if not names:
        return "true" if tab else "false"
    if len(names) == 1 and len(tab) == 1:
        return ("" if tab[0][0] else "not ") + say(("atom", names[0]))
    return "a combination of " + ", ".join(say(("atom", n)) for n in names)


def define(kw, f, t):
    return ([(f, t)], []) if kw == "define-formula" else ([], [(f, t)])


NUMS = ["D", "D.D", "D.DeD", "D.DE+D", "De-D", "D.eD"]


def operands(X, how, n):
    if how == "pred":
        return [X.pred() for _ in range(n)]
    return [("true",) if (k + (how == "bool1")) % 2 else ("false",) for k in range(n)]


def arities(k):
    lo, hi = ARITY[k]
    return [lo] if hi else [lo, lo + 1, lo + 2]


def c15(ctx):
    """Each keyword, predicate form and numeral form of the specification language is put, as a sentential form with
    symbolic names, digits and white space, through the grammar the compiler instantiated for from_string and the
    library's own semantic actions (abstract states). The expression found in the returned specification has to denote
    what the text says: same connective (truth table over the operands), same temporal operator with operands in order
    and no interval, same comparison, name and numeral text; operands of and/or in written order. Nesting of every
    keyword in every operand position; then, per keyword, an induction step with opaque operand terms in an arbitrary
    parser state: the term appends exactly its own expression to the list of terms it is matched with."""
    X = Fresh()
    P = Forms(ctx)
    if P.F is None:
        return
    kws = ("define-formula", "assert")
    for k in ARITY:
        for n in arities(k):
            for how in ("pred", "bool0", "bool1"):
                for kw in kws if how == "pred" else kws[:1]:
                    for sp in ("space", "min", "comment") if how == "pred" and kw == kws[0] else ("space",):
                        f, t = X.id(), (k,) + tuple(operands(X, how, n))
                        P.accepts(f"{k}", layout(cmd(kw, f, t), sp), *define(kw, f, t))
    for op in SYM:
        for order in ("xc", "cx"):
            for num in NUMS:
                f, t = X.id(), X.pred(op, order, num)
                P.accepts(f"predicate {op}" + (" mirrored" if order == "cx" else ""), layout(cmd("define-formula", f, t)), *define("define-formula", f, t))
            for sp in ("min", "comment"):
                f, t = X.id(), X.pred(op, order, "D.D")
                P.accepts(f"predicate {op}" + (" mirrored" if order == "cx" else ""), layout(cmd("assert", f, t), sp), *define("assert", f, t))
    for c in ("true", "false"):
        for kw in kws:
            f = X.id()
            P.accepts(c, layout(cmd(kw, f, (c,))), *define(kw, f, (c,)))
            P.accepts(c, layout(cmd(kw, f, ("paren", (c,)))), *define(kw, f, ("paren", (c,))))
    for k in ARITY:
        for k2 in ARITY:
            n = ARITY[k][0]
            for pos in range(n):
                ops = operands(X, "pred", n)
                ops[pos] = (k2,) + tuple(operands(X, "pred", ARITY[k2][0]))
                f, t = X.id(), (k,) + tuple(ops)
                P.accepts(f"{k2} inside {k}", layout(cmd("define-formula", f, t)), *define("define-formula", f, t))
    for k in ("and", "or"):
        for n in (5, 9, 33):
            f, t = X.id(), (k, X.pred(), X.pred(">")) + (("true" if k == "and" else "false",),) * (n - 3) + (X.pred("<="),)
            P.accepts(f"{k} of many operands", layout(cmd("assert", f, t)), *define("assert", f, t))
    f, t = X.id(), X.pred()
    for k in ("not", "always", "eventually", "paren") * 4:
        t = (k, t)
    P.accepts("deep nesting", layout(cmd("assert", f, t)), *define("assert", f, t))
    for k in ARITY:
        for c in ("predicate", "paren", "ref"):
            n = ARITY[k][0]
            ops, pre, toks = [], [], []
            for _ in range(n):
                if c == "ref":
                    d, u = X.id(), X.pred(">=")
                    pre.append((d, u))
                    toks += cmd("define-formula", d, u)
                    ops.append(("ref", d))
                elif c == "paren":
                    ops.append(("paren", X.pred("<=", "cx")))
                else:
                    ops.append(X.pred(">", "cx", "D.D"))
            f, t = X.id(), (k,) + tuple(ops)
            P.accepts(f"{k} of {c}", layout(toks + cmd("assert", f, t)), pre, [(f, t)])
    steps15(ctx, P)


# ---- induction steps -----------------------------------------------------------------------------
class Step:
    """Runs a rule in an arbitrary parser state, terms being opaque."""

    def __init__(self, P):
        self.P, self.ctx = P, P.ctx
        self.rule = None
        self.file = None

    def term_rule(self):
        """The recursive rule of the grammar."""
        if self.rule is None:
            got = []
            d = peg.Driver(self.P.G, [], step=lambda d, *a: got.append((d.rule, d.run.tpl)))
            self.P.ctx.analyse(self.P.F, prep=lambda eng, st: setattr(eng, "peg", d))
            if not got:
                raise peg.Unsupported("the parser is never called")
            self.file, tpl = got[0]
            rs = peg.recursive(self.P.G, self.file)
            rs.sort(key=lambda t: "match" not in self.P.G.action(tpl, t))
            if not rs:
                raise peg.Unsupported("no recursive rule")
            self.rule = rs[0]
        return self.rule

    def place(self, eng, st, refs):
        """The list of expressions a term is appended to: (reference of the state, field)."""
        out = []
        for r in refs:
            v = eng.read(st, r)
            if isinstance(v, Struct):
                out += [(r, f) for f, x in v.f.items() if isinstance(x, Seq) and x.et == self.P.ety]
        if len(out) != 1:
            raise peg.Unsupported("list of terms of a parser state")
        return out[0]

    def run(self, form, whole=False):
        """[(state, ok, end, before, after)] and the run; states are arbitrary before."""
        outs = []
        term = self.term_rule()

        def step(d, eng, st, refs, node):
            before = []
            for n, r in enumerate(refs):
                v = eng.read(st, r)
                if not isinstance(v, Struct):
                    raise peg.Unsupported("parser state")
                x = eng.sym(v.cls, ("p", f"state{n}"))
                eng.write(st, r, x, node)
                before.append(eng.read(st, r))
            for s, p, ok in d.run.match(eng, st, self.file if whole else term, (0, False), True, node, refs):
                outs.append((s, ok, p, refs, before, [eng.read(s, r) for r in refs]))
        d = peg.Driver(self.P.G, form, hyp=self.place, term_rule=peg.key(term), step=step)
        r = self.ctx.analyse(self.P.F, prep=lambda eng, st: setattr(eng, "peg", d), max_steps=200000)
        if not r.ok:
            raise peg.Unsupported(r.why)
        return r, d, outs

    def term(self, key, toks, t, style="space"):
        """A term text appends its expression to the list of terms, and nothing else changes."""
        form = layout(toks, style, edge=False)
        form = form + list(SPACES[style])
        txt = f"step {show(form)!r}"
        try:
            r, d, outs = self.run(form)
            ok, msg = self.judge(r, form, outs, t)
        except (peg.Unsupported, Unknown) as e:
            ok, msg = None, str(e)
        except Wrong as e:
            ok, msg = None, str(e)
        self.ctx.count("steps")
        self.ctx.check(ok, key, self.P.F, f"{txt} in any state: {msg or 'appends its own expression and changes nothing else'}")

    def judge(self, r, form, outs, t):
        for p in r.paths:
            wellformed(r.eng, p.st)
            if not p.st.facts.unsat():
                return None, f"may throw {p.exc.ty} {p.fn}:{p.line}" if p.exc else "returns"
        if not outs:
            return None, "no outcome"
        for s, ok, p, refs, before, after in outs:
            wellformed(r.eng, s)
            if s.facts.unsat():
                continue
            if not s.exact:
                return None, "state not known exactly"
            if not ok or p != (len(form), False):
                return None, "may fail"
            ref, f = self.place(r.eng, s, refs)
            for q, b, a in zip(refs, before, after):
                for k in b.f:
                    if q == ref and k == f:
                        old, new = b.f[k], a.f[k]
                        if new.segs[:len(old.segs)] != old.segs or len(new.segs) != len(old.segs) + 1 or new.segs[-1][0] != "item" or new.over != old.over:
                            return None, f"{k} is not extended by one expression"
                        g = Tree(r.eng, s, self.P.ety).expr(new.segs[-1][1])
                        w = want(t, {"T": lambda n: Tree(r.eng, s, self.P.ety).expr(r.eng.sym(self.P.ety, ("term", n)))})
                        if canon(g) != canon(w) or not in_order(g, w):
                            return None, f"appends {say(g)}"
                    elif has_top(a.f[k]) or a.f[k] != b.f[k]:
                        return None, f"{k} changes"
        return True, ""


def steps15(ctx, P):
    S = Step(P)
    X = Fresh()
    for k in ARITY:
        for n in arities(k)[:2]:
            t = (k,) + tuple(("T", m + 1) for m in range(n))
            for sp in ("space", "min"):
                S.term(f"{k} of any terms", tokens(t), t, sp)
        if ARITY[k][1] is None:
            t = (k, ("T", 1), ("T", 2), ("T*", 3))
            S.term(f"{k} of any number of terms", tokens(t), t)
    for op in SYM:
        for order in ("xc", "cx"):
            for num in NUMS:
                t = X.pred(op, order, num)
                S.term(f"predicate {op}" + (" mirrored" if order == "cx" else ""), tokens(t), t)
    for c in ("true", "false"):
        S.term(c, tokens((c,)), (c,))
    t = ("paren", ("T", 1))
    S.term("parentheses", tokens(t), t)


# ---- C16 -------------------------------------------------------------------------------------------
def inmap(st, m, key):
    """Whether the key is in the map a symbolic map stands for, as far as the path knows."""
    return st.bools.get(("inmap", m.name, key.term if isinstance(key, Str) else ("key", repr(key))))


def last(m):
    """What was stored in a map, the last value per key."""
    return {(k.term if isinstance(k, Str) else repr(k)): (k, v, how) for k, v, how in m.ins}


class Steps16(Step):
    def command(self, kw, style):
        X = Fresh()
        i = X.id()
        form = layout(cmd(kw, i, ("T", 1)), style)
        key = f"{kw} in any state"
        txt = f"step {show(form)!r} in any state"
        mine = "formulas" if kw == "define-formula" else "assertions"
        self.ctx.count("steps")
        try:
            r, d, outs = self.run(form, whole=True)
            ok, msg = self.judge_cmd(r, form, outs, mine, Str(idkey(i)), kw)
        except (peg.Unsupported, Unknown, Wrong) as e:
            ok, msg = None, str(e)
        self.ctx.check(ok, key, self.P.F, f"{txt}: {msg or 'defines the name once, rejects it if it is defined, and changes nothing else'}")

    def maps(self, vals):
        out = {}
        for n, v in enumerate(vals):
            for f, x in v.f.items():
                if isinstance(x, MapV):
                    out[f] = (n, x)
        return out

    def judge_cmd(self, r, form, outs, mine, i, kw):
        if not outs:
            return None, "no outcome"
        before = outs[0][4]
        mb = self.maps(before)
        if mine not in mb:
            return None, "maps of the parser state"
        name = mb[mine][1]
        for p in r.paths:
            wellformed(r.eng, p.st)
            if p.st.facts.unsat():
                continue
            if not p.exc or not p.st.exact or inmap(p.st, name, i) is not True:
                return None, "throws for a name that may be new" if p.exc else "returns"
        for s, ok, p, refs, before, after in outs:
            if not s.exact or not ok or p != (len(form), False):
                return None, "may fail"
            if inmap(s, name, i) is not False:
                return None, "accepts a name that may be defined"
            for b, a in zip(before, after):
                for k in b.f:
                    x, y = b.f[k], a.f[k]
                    if isinstance(x, MapV) and k == mine:
                        new = last(y)
                        if y.name != x.name or set(new) != {i.term}:
                            return None, f"{k} gets other entries"
                        g = Tree(r.eng, s, self.P.ety).expr(new[i.term][1])
                        w = Tree(r.eng, s, self.P.ety).expr(r.eng.sym(self.P.ety, ("term", 1)))
                        if canon(g) != canon(w):
                            return None, f"records {say(g)}"
                    elif has_top(y) or x != y:
                        return None, f"{k} changes"
        return True, ""

    def reference(self):
        i = ("I", 1)
        form = [i, ("W", 0)]
        txt = f"step {show(form)!r} in any state"
        self.ctx.count("steps")
        try:
            r, d, outs = self.run(form)
            ok, msg = self.judge_ref(r, form, outs, Str(idkey(i)))
        except (peg.Unsupported, Unknown, Wrong) as e:
            ok, msg = None, str(e)
        self.ctx.check(ok, "reference in any state", self.P.F, f"{txt}: {msg or 'is the formula of that name, rejected if there is none'}")

    def judge_ref(self, r, form, outs, i):
        if not outs:
            return None, "no outcome"
        mb = self.maps(outs[0][4])
        if "formulas" not in mb:
            return None, "maps of the parser state"
        n, m = mb["formulas"]
        for p in r.paths:
            if not p.exc or not p.st.exact or inmap(p.st, m, i) is not False:
                return None, "throws for a name that may be defined" if p.exc else "returns"
        for s, ok, p, refs, before, after in outs:
            if not s.exact or not ok or p != (len(form), False) or inmap(s, m, i) is not True:
                return None, "may fail, or accept an undefined name"
            ref, f = self.place(r.eng, s, refs)
            for q, b, a in zip(refs, before, after):
                for k in b.f:
                    if q == ref and k == f:
                        old, new = b.f[k], a.f[k]
                        w = r.eng.read(s, refs[n] + "formulas" + ("m", i))
                        if new.segs[:-1] != old.segs or new.segs[-1][0] != "item" or has_top(w) or new.segs[-1][1] != w:
                            return None, f"{k} is not extended by the formula of that name"
                    elif has_top(a.f[k]) or a.f[k] != b.f[k]:
                        return None, f"{k} changes"
        return True, ""


def c16(ctx):
    """Sentential forms of sequences of commands (definitions, assertions, references in every operand position,
    redefinitions, undefined names, names shared between formulas, assertions and signals) go through the grammar and
    the semantic actions; each name in the returned specification has to denote the text of its own definition, each
    redefinition and each reference to an undefined name has to throw on every path. Induction steps: a definition, an
    assertion and a reference in an arbitrary parser state, with opaque terms. Specification::add_* and get_* are
    analysed on arbitrary specifications."""
    P = Forms(ctx)
    X = Fresh()
    if P.F is not None:
        good16(P, X)
        bad16(P, X)
        S = Steps16(P)
        for kw in ("define-formula", "assert"):
            for sp in ("space", "min"):
                S.command(kw, sp)
        S.reference()
    spec16(ctx)


def file(*cmds, style="space"):
    toks = []
    for c in cmds:
        toks += cmd(*c)
    return layout(toks, style)


def good16(P, X):
    D, A = "define-formula", "assert"

    def ok(key, *cmds, style="space"):
        P.accepts(key, file(*cmds, style=style), [(n, t) for k, n, t in cmds if k == D], [(n, t) for k, n, t in cmds if k == A])
    a, b, c, f, p, q = (X.id() for _ in range(6))
    ref = lambda i: ("ref", i)
    for sp in SPACES:
        ok("names resolve", (D, a, X.pred()), (D, b, X.pred(">")), (A, p, ("and", ref(a), ("not", ref(b)))), style=sp)
    ok("alias", (D, a, X.pred()), (D, b, ref(a)), (A, p, ref(b)), (D, c, ("paren", ref(b))))
    ok("one name in both spaces", (D, a, X.pred()), (A, a, X.pred(">=")), (D, b, ("not", ref(a))))
    ok("one name in both spaces", (A, a, X.pred()), (D, a, X.pred(">=")), (A, b, ("not", ref(a))))
    u = ("pred", "<", a, X.num(), "xc")
    ok("signal named like a formula", (D, a, u), (D, b, ("or", ref(a), ("pred", ">", a, X.num(), "cx"))), (A, p, ("until", ("pred", "<=", b, X.num(), "xc"), ref(b))))
    ok("several commands", (D, a, X.pred()), (A, p, X.pred()), (D, b, X.pred()), (A, q, ("or", ref(b), ref(a))), (D, c, ("implies", ref(b), ref(a))))
    ok("names with a common prefix", (D, "x", X.pred()), (D, "xy", X.pred()), (D, "x1", X.pred()), (A, "x", ("implies", ("ref", "xy"), ("ref", "x"))), (A, "xy", ("until", ("ref", "x1"), ("ref", "x"))))
    ok("names like keywords", *[(D, n, X.pred()) for n in ("andy", "nothing", "truely", "true1", "or_")],
       (A, "asserted", ("and", ("ref", "andy"), ("not", ("ref", "truely")))), (A, "untilx", ("iff", ("ref", "true1"), ("ref", "or_"))))
    for k in ARITY:
        n = ARITY[k][0]
        for pos in range(n):
            ops = operands(X, "pred", n)
            ops[pos] = ref(a)
            ok(f"reference in {k}", (D, a, X.pred(">=")), (D, b, X.pred("<=")), (A, p, (k,) + tuple(ops)))
        for k2 in ARITY:
            m = ARITY[k2][0]
            inner = (k2,) + tuple([ref(b)] + operands(X, "pred", m - 1))
            for pos in range(n):
                ops = [ref(a)] * n
                ops[pos] = inner
                if n == 1:
                    ok(f"operands of {k} {k2}", (D, b, X.pred("<=")), (A, p, (k, inner)))
                else:
                    ok(f"operands of {k} {k2}", (D, a, X.pred(">=")), (D, b, X.pred("<=")), (D, f, (k,) + tuple(ops)), (A, p, ref(f)))


def bad16(P, X):
    D, A = "define-formula", "assert"
    a, b, c, p, q = (X.id() for _ in range(5))
    ref = lambda i: ("ref", i)

    def bad(key, why, *cmds, style="space"):
        P.rejects(key, file(*cmds, style=style), why)
    for kw, what in ((D, "formula"), (A, "assertion")):
        bad(f"redefined {what}", f"a {what} defined twice", (kw, a, X.pred()), (kw, a, X.pred()))
        bad(f"redefined {what}", f"a {what} defined twice", (kw, a, X.pred()), (kw, b, X.pred()), (D if kw == A else A, a, X.pred()), (kw, a, ("true",)))
        bad(f"redefined {what}", f"a {what} defined twice with the same text", (kw, "x", ("true",)), (kw, "x", ("true",)), style="min")
        bad("undefined name", "reference to an undefined name", (kw, a, ref(b)))
        bad("undefined name", "reference to an undefined name", (kw, a, ("paren", ref(b))))
        bad("undefined name", "self reference", (kw, a, ("not", ref(a))))
        bad("undefined name", "reference to the name of an assertion", (A, b, X.pred()), (kw, a, ("not", ref(b))))
        bad("undefined name", "reference before the definition", (kw, a, ("not", ref(b))), (D, b, X.pred()))
        bad("undefined name", "reference to the name of a signal", (D, b, ("pred", "<", c, X.num(), "xc")), (kw, a, ref(c)))
        bad("undefined name", "reference to an undefined name", (D, "x", X.pred()), (kw, "y", ("or", ("ref", "x"), ("ref", "xx"))))
        for k in ARITY:
            n = ARITY[k][0]
            for pos in range(n):
                ops = [ref(b)] * n
                ops[pos] = ref(c)
                bad(f"undefined name in {k}", "reference to an undefined name", (D, b, X.pred()), (kw, a, (k,) + tuple(ops)))


SPEC = "signal_tl::Specification"


def spec16(ctx):
    for fn, mine in (("add_formula", "formulas"), ("add_assertion", "assertions"), ("get_formula", "formulas"), ("get_assertion", "assertions")):
        fs = ctx.fns(f"{SPEC}::{fn}")
        if not fs:
            ctx.missing(f"{SPEC}::{fn}")
        for F in fs:
            r = ctx.analyse(F)
            if not r.ok:
                ctx.check(None, fn, F, r.why)
                continue
            ids = [q["n"] for q in F.params if "string" in q["t"]]
            es = [q["n"] for q in F.params if "string" not in q["t"]]
            if len(ids) != 1 or (fn[:3] == "add") != (len(es) == 1):
                ctx.check(None, fn, F, "parameters")
                continue
            key = Str(("p", ids[0]))
            for p in r.paths:
                ok, msg = spec_path(ctx, r, p, F, fn, mine, key, es)
                ctx.check(ok if ok is not False or p.st.exact else None, fn, F, msg)


def spec_path(ctx, r, p, F, fn, mine, key, es):
    eng, st = r.eng, p.st
    o0 = eng.sym(SPEC, ("p", "this"))
    o = eng.read(st, Ref(("in", "this")))
    if not isinstance(o, Struct) or not all(isinstance(o.f.get(k), MapV) for k in o0.f):
        return None, "specification not understood"
    other = [k for k in o0.f if k != mine]
    if any(has_top(o.f[k]) for k in o.f):
        return None, "specification not understood"
    if any(o.f[k] != o0.f[k] for k in other):
        return False, f"{fn} changes the other definitions"
    there = inmap(st, o0.f[mine], key)
    m = o.f[mine]
    new = last(m)
    if m.name != o0.f[mine].name:
        return False, f"{fn} drops definitions"
    if fn.startswith("get"):
        if new:
            return False, f"{fn} stores a definition"
        if p.exc:
            return (True, "an undefined name is an error") if there is False else (False, "a defined name is rejected") if there else (None, "throws")
        v = eng.read(st, p.val)
        for k in other:
            if inmap(st, o0.f[k], key) and not there and not has_top(v) and v == eng.read(st, Ref(("in", "this")) + k + ("m", key)):
                return False, f"returns what is recorded among the {k}"
        if there is not True:
            return (False if there is False else None), "returns something for an undefined name"
        w = eng.read(st, Ref(("in", "this")) + mine + ("m", key))
        if has_top(v) or has_top(w):
            return None, "value not understood"
        return v == w, "returns the formula recorded under the name" if v == w else "returns something else than the formula recorded under the name"
    if p.exc:
        if there is True and not new:
            return True, "a defined name is an error and keeps its definition"
        return (None if there is None else False), "a new name is rejected" if there is False else "the first definition is not kept"
    if there is True:
        return False, "a defined name is accepted" + (" and its definition replaced" if new else " and the definition ignored")
    if there is None:
        if any(x[2] in ("assign", "default", "insert_or_assign") for x in new.values()):
            return False, "a definition is replaced without a check"
        return None, "no check of the name"
    if set(new) != {key.term}:
        return False, "the definition is not recorded under its name"
    w = eng.sym(next(q["t"] for q in F.params if q["n"] == es[0]), ("p", es[0]))
    v = eng.read(st, new[key.term][1]) if isinstance(new[key.term][1], Ref) else new[key.term][1]
    if has_top(v):
        return None, "value not understood"
    return v == w, "records the given formula under the name" if v == w else "records something else than the given formula"


# ---- C17 -------------------------------------------------------------------------------------------
def c17(ctx):
    """Sentential forms of ill-formed specifications (every truncation of a specification with all kinds of terms, missing
    and surplus operands, unknown commands, keywords run together with the text after them, cut comparisons, text before
    and after, unbalanced parentheses) go through the grammar and the semantic actions: every path has to throw. The
    well-formed neighbours, with white space, line comments or nothing between tokens, have to be returned complete. The
    entry points hand the whole argument to one parse, and throw whenever it reports a failure or an exception."""
    P = Forms(ctx)
    X = Fresh()
    entry17(ctx, P)
    if P.F is None:
        return
    good17(P, X)
    bad17(P, X)


def entry17(ctx, P):
    for n in ("from_string", "from_file"):
        fs = ctx.fns(NS + n)
        if not fs:
            ctx.missing(NS + n)
        for F in fs:
            for mode in ("failure", "error", "success"):
                def step(d, eng, st, refs, node, mode=mode):
                    if mode == "error":
                        eng.throw(st, Exc("tao::pegtl::parse_error", ()), node)
                        return []
                    return [(st, mode == "success")]
                d = peg.Driver(P.G, [], step=step)
                try:
                    r = ctx.analyse(F, prep=lambda eng, st: setattr(eng, "peg", d))
                except peg.Unsupported as e:
                    ctx.check(None, n, F, str(e))
                    continue
                if not r.ok or not d.calls or not r.paths:
                    ctx.check(None, n, F, r.why or "the parser is never called")
                    continue
                for p in r.paths:
                    ex = p.st.exact
                    if mode != "success":
                        what = "a parse that fails" if mode == "failure" else "a parse error"
                        ctx.check(True if p.exc else False if ex else None, f"{n}:{mode}", F, f"{what} has to make {n} throw" + ("" if p.exc else ", it returns"))
                    elif p.exc:
                        ctx.check(False if ex else None, f"{n}:{mode}", F, f"{n} throws {p.exc.ty} although parsing succeeded")
                    else:
                        v = r.eng.read(p.st, p.val) if isinstance(p.val, Ref) else p.val
                        if not isinstance(v, Ptr):
                            ctx.check(None, f"{n}:{mode}", F, "result not understood")
                        else:
                            ctx.check(v.ref is not None if ex else None if v.ref is None else True, f"{n}:{mode}", F, "returns " + ("a specification" if v.ref is not None else "a null pointer"))
                arg = ("p", F.params[0]["n"])
                for v in d.inputs:
                    ctx.check(True if whole(v, arg) else None, f"{n}:input", F, f"the text parsed is the whole of the argument ({str(v)[:120]})")


def whole(v, arg):
    a = v.args if isinstance(v, (Exc, Opq)) else ()
    return bool(a) and getattr(a[0], "term", None) == arg and getattr(v, "ty", "").startswith(peg.PEGNS) and "_input" in v.ty


def good17(P, X):
    D, A = "define-formula", "assert"

    def ok(key, *cmds, style="space", pre=(), post=()):
        P.accepts(key, list(pre) + file(*cmds, style=style) + list(post), [(n, t) for k, n, t in cmds if k == D], [(n, t) for k, n, t in cmds if k == A])
    P.accepts("empty file", [], [], [])
    for st in SPACES:
        P.accepts("empty file", list(SPACES[st]), [], [])
        a, b, p = X.id(), X.id(), X.id()
        for k in ARITY:
            ops = [("ref", a)] + operands(X, "pred", ARITY[k][0] - 1)
            ok("white space", (D, a, X.pred("<=", "xc", "D.D")), (A, p, (k,) + tuple(ops)), style=st)
        for op in SYM:
            for order in ("xc", "cx"):
                ok("white space", (A, p, X.pred(op, order, "D.DeD")), style=st)
        ok("white space", (D, a, ("true",)), (D, b, ("paren", ("ref", a))), (A, p, ("paren", ("paren", ("and", ("ref", a), ("false",))))), style=st)
    for k in ("and", "or"):
        for n in (3, 4, 5, 9, 33):
            ok("many operands", (A, X.id(), (k, X.pred(), X.pred(">")) + (("true",),) * (n - 3) + (X.pred("<="),)))
    for st in ("space", "min"):
        ok("many commands", *[((D, A)[n % 2], X.id(), (("true",), X.pred())[n % 2]) for n in range(30)], style=st)
    a, p = X.id(), X.id()
    com = [("c", ";"), ("X", 0)]
    ok("comments", (D, a, X.pred()), post=com)
    ok("comments", (D, a, X.pred()), post=com + [("c", "\n")])
    ok("comments", (D, a, X.pred()), pre=com + [("c", "\n")] + com + [("c", "\n")], style="comment")
    ok("comments", (D, a, X.pred()), pre=com + [("c", "\r"), ("c", "\n")])
    ok("comments", (D, a, X.pred()), pre=[("c", ";"), ("c", "\n")])
    ok("comments", (D, a, X.pred()), post=[("c", ";")] + list(word("(define-formula)")))
    words = [w + s for w in ("and", "or", "not", "true", "false", "implies", "iff", "xor", "always", "eventually", "until", "assert") for s in ("x", "_", "1")]
    for w in words:
        for u in (("ref", w), ("paren", ("ref", w)), ("not", ("ref", w)), ("implies", ("ref", w), ("true",)), ("until", ("false",), ("ref", w))):
            ok("identifier beginning with a keyword", (D, w, X.pred()), (A, "r", u))
        ok("identifier beginning with a keyword", (D, w, ("pred", "<", w, X.num(), "xc")), (A, w, ("pred", ">=", w, X.num("D.D"), "cx")))


def bad17(P, X):
    D, A = "define-formula", "assert"
    a, b, p = X.id(), X.id(), X.id()
    W = ("W", 0)

    def toks(s):
        """Tokens of a schema: words are characters, $i identifiers, #n numerals, ~ a predicate."""
        out = []
        for w in s.replace("(", " ( ").replace(")", " ) ").split():
            if w == "$":
                out.append((X.id(),))
            elif w == "$a":
                out.append((a,))
            elif w == "#":
                out.append(X.num())
            elif w == "~":
                out += tokens(X.pred())
            else:
                out.append(word(w))
        return out

    def bad(key, why, s, styles=("space",)):
        for st in styles:
            P.rejects(key, layout(toks(s), st), why)
    # truncation: no proper prefix that ends inside a command
    big = []
    for k, n, t in ((D, a, ("implies", X.pred("<=", "xc", "D.DeD"), ("and", X.pred("<", "cx"), ("not", X.pred()), ("true",)))),
                    (A, p, ("until", ("paren", ("ref", a)), ("always", ("eventually", ("ref", a)))))):
        big += cmd(k, n, t)
    depth = 0
    for n, t in enumerate(big):
        depth += (t == word("(")) - (t == word(")"))
        if depth > 0:
            for st in ("space", "min"):
                P.rejects("truncated", layout(big[:n + 1], st), "a truncated specification")
    for n, t in enumerate(big):
        if t in (word("("), word(")")):
            P.rejects("unbalanced", layout(big[:n] + big[n + 1:]), "a specification with a parenthesis missing")
            if t == word(")"):
                P.rejects("unbalanced", layout(big[:n] + [t] + big[n:]), "a specification with a parenthesis too many")
    for tail in (")", "(", "x", "$", "#", "true", "~", "( $ $ ~ )", "<", "assert", "( assert", "define-formula $ ~"):
        bad("text after", "text after the last command", f"(define-formula $ ~) {tail}", ("space", "min"))
        bad("text before", "text before the first command", f"{tail} (define-formula $ ~)")
        bad("text only", "no command", tail)
    # operands
    for kw in (D, A):
        pre = f"(define-formula $a ~) ({kw} $ "
        for k, (lo, hi) in ARITY.items():
            for u in ("~", "$a", "true"):
                for n in range(lo):
                    bad(f"missing operand of {k}", "too few operands", f"{pre} ({k} {' '.join([u] * n)}))", ("space", "min"))
                if hi:
                    bad(f"surplus operand of {k}", "too many operands", f"{pre} ({k} {' '.join([u] * (hi + 1))}))")
                    bad(f"surplus operand of {k}", "too many operands", f"{pre} ({k} {' '.join([u] * (hi + 2))}))")
                bad("keyword without parentheses", "a keyword without parentheses", f"{pre} {k} {u} {u})")
                bad("operand outside", "an operand outside the parentheses", f"{pre} ({k} {' '.join([u] * lo)}) {u})")
            bad(f"bad operand of {k}", "a number as operand", f"{pre} ({k} {' '.join(['~'] * (lo - 1))} #))")
            bad(f"bad operand of {k}", "an unparenthesised comparison as operand", f"{pre} ({k} {' '.join(['~'] * (lo - 1))} < $ #))")
            for glue in ("x", "_", "1"):
                for u in ("~", "$a"):
                    bad("keyword run together", "a word that only begins with a keyword", f"{pre} ({k}{glue} {' '.join([u] * lo)}))")
        for op in SYM:
            for body in ("", "$", "#", "$ $", "# #", "$ # #", "$ # $", "# $ $", "# $ #", "$ ~", "~ #", "true #", "( $ ) #"):
                if body == "true #":
                    continue
                bad("operands of a comparison", "a comparison needs one name and one number", f"{pre} ({op} {body}))")
            for w in ("= " + op, op + " =", op + " <", op + " >"):
                for body in ("$ #", "# $"):
                    bad("cut comparison", "a comparison of several symbols", f"{pre} ({w} {body}))")
            for w in ("<<", ">>", "<>", "><", "=<", "=>", "==", "=", "!=", "<==", ">=="):
                for body in ("$ #", "# $"):
                    bad("unknown comparison", "an unknown comparison", f"{pre} ({w} {body}))", ("space", "min"))
            bad("comparison outside", "a comparison without parentheses", f"{pre} {op} $ #)")
            bad("numeral", "an exponent without digits", f"{pre} ({op} $ 1e))")
            bad("numeral", "an exponent without digits", f"{pre} ({op} $ 1.5e+))")
            bad("numeral", "two decimal points", f"{pre} ({op} $ 1.2.3))")
        for u in ("~ ~", "$a $a", "true false", "$a ~", "~ $a", "$a true", "true ~", "$a #", "# $a", ""):
            bad("several expressions in parentheses", "not exactly one expression in parentheses", f"{pre} ({u}))")
            if u:
                bad("several expressions in parentheses", "not exactly one expression in parentheses", f"{pre} (not ({u})))")
                bad("surplus term", "more than one term in a command", f"{pre} {u})")
        bad("missing term", "a command without a term", f"({kw} $)")
        bad("missing term", "a command without name and term", f"({kw})", ("space", "min"))
        bad("missing name", "a command without a name", f"({kw} ~)")
        bad("missing name", "a number as name", f"({kw} # ~)")
        bad("missing name", "a number as name", f"({kw} 1x ~)")
        for glue in ("x", "_", "1", "s"):
            bad("unknown command", "a word that only begins with a command", f"({kw}{glue} $ ~)")
        bad("several names", "two names in a command", f"({kw} $ $ ~)")
        bad("command without parentheses", "a command without parentheses", f"{kw} $ ~")
        bad("command inside a term", "a command as a term", f"(define-formula $ ({kw} $ ~))")
    for w in ("define", "formula", "definition", "check", "$", "and", "not", "true", "define_formula", "defineformula", "ASSERT", "Assert"):
        bad("unknown command", "an unknown command", f"({w} $ ~)")
    for k in ARITY:
        bad("unknown command", "a term as a command", f"({k} {' '.join(['~'] * ARITY[k][0])})")
    for c in (";", "; (assert", ""):
        P.rejects("comment", layout(toks("(define-formula $ ~"), "space") + list(word(c + ")")), "a closing parenthesis in a comment") if c else None
    P.rejects("comment", list(word("(define-formula ; x")) + [("c", "\n")] + [X.id(), W] + list(word("; (< a 1))")), "a term in a comment")
