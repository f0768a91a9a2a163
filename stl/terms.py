"""Numeric normal forms (value numbers) and the relational domain over them.

A numeric abstract value is a rational function over interned atoms in normal
form, so two expressions that are equal as real-number expressions get the same
value number however they are written. Facts known on a path are polynomial
(in)equalities; `Facts.entails` decides consequences of their linear part in the
convex-polyhedra domain (variable elimination; no external solver).
"""
from fractions import Fraction as Fr
from math import gcd


class Atom:
    __slots__ = ("key", "kind", "n", "info")
    table = {}

    def __init__(self, key, kind, n, info):
        self.key, self.kind, self.n, self.info = key, kind, n, info

    def __repr__(self):
        return show_key(self.key)


def show_key(k):
    if isinstance(k, tuple):
        if k and k[0] == "elem":
            return f"{show_key(k[1])}[{k[2]}].{k[3]}"
        if k and k[0] == "size":
            return f"size({show_key(k[1])})"
        if k and k[0] == "*":
            return f"*{show_key(k[1])}"
        if k and k[0] == "fld":
            return f"{show_key(k[1])}.{k[2]}"
        if k and k[0] == "p":
            return str(k[1])
        return "(" + " ".join(show_key(x) for x in k) + ")"
    return str(k)


ATOMS = []


def atom(key, kind="r", info=None):
    a = Atom.table.get(key)
    if a is None:
        a = Atom(key, kind, len(ATOMS), info)
        Atom.table[key] = a
        ATOMS.append(a)
    return a


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0) + e
                m = tuple(sorted(d.items()))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def lead(p):
    return max(p, key=lambda m: m[::-1])  # lexicographic, highest atom first


def pdivexact(p, q):
    """p/q if exact, else None (multivariate long division, graded order)."""
    if len(q) == 1:
        (m, c), = q.items()
        d = dict(m)
        r = {}
        for m1, c1 in p.items():
            e1 = dict(m1)
            for a, e in d.items():
                if e1.get(a, 0) < e:
                    return None
                e1[a] -= e
                if not e1[a]:
                    del e1[a]
            r[tuple(sorted(e1.items()))] = c1 / c
        return r
    quo = {}
    p = dict(p)
    lq = lead(q)
    dq = dict(lq)
    n = 0
    while p:
        n += 1
        if n > 60:
            return None
        lp = lead(p)
        e1 = dict(lp)
        for a, e in dq.items():
            if e1.get(a, 0) < e:
                return None
            e1[a] -= e
            if not e1[a]:
                del e1[a]
        t = {tuple(sorted(e1.items())): p[lp] / q[lq]}
        quo = padd(quo, t)
        p = padd(p, pmul(t, q), -1)
    return quo


ONE = {(): Fr(1)}


class R:
    """Rational function in normal form."""
    __slots__ = ("num", "den", "_key")

    def __init__(self, num, den=ONE):
        if den is not ONE and den != ONE:
            if not den:
                den = {((atom(("zero-denominator",)).n, 1),): Fr(1)}
            if not num:
                den = ONE
            elif len(den) == 1 and () in den:
                c = den[()]
                num = {m: v / c for m, v in num.items()}
                den = ONE
            else:
                q = pdivexact(num, den)
                if q is not None:
                    num, den = q, ONE
                else:
                    q = pdivexact(den, num) if num else None
                    if q is not None:
                        num, den = ONE, q
                    c = den[lead(den)]
                    if c != 1:
                        num = {m: v / c for m, v in num.items()}
                        den = {m: v / c for m, v in den.items()}
        self.num, self.den = num, den
        self._key = None

    @staticmethod
    def c(v):
        v = Fr(v)
        return R({(): v} if v else {})

    @staticmethod
    def a(at):
        return R({((at.n, 1),): Fr(1)})

    def const(self):
        if self.den is ONE or self.den == ONE:
            if not self.num:
                return Fr(0)
            if len(self.num) == 1 and () in self.num:
                return self.num[()]
        return None

    def __add__(self, o):
        if self.den == o.den:
            return R(padd(self.num, o.num), self.den)
        return R(padd(pmul(self.num, o.den), pmul(o.num, self.den)), pmul(self.den, o.den))

    def __neg__(self):
        return R({m: -c for m, c in self.num.items()}, self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return R(pmul(self.num, o.num), pmul(self.den, o.den))

    def __truediv__(self, o):
        return R(pmul(self.num, o.den), pmul(self.den, o.num))

    def __eq__(self, o):
        if not isinstance(o, R):
            return False
        if self.den == o.den:
            return self.num == o.num
        return pmul(self.num, o.den) == pmul(o.num, self.den)

    def __hash__(self):
        return hash(frozenset(self.num)) if self.den is ONE else 7

    def key(self):
        if self._key is None:
            self._key = (tuple(sorted(self.num.items())), tuple(sorted(self.den.items())))
        return self._key

    def atoms(self):
        s = set()
        for p in (self.num, self.den):
            for m in p:
                for a, _ in m:
                    s.add(a)
        return s

    def is_int(self):
        return (self.den == ONE and all(c.denominator == 1 for c in self.num.values())
                and all(ATOMS[a].kind == "i" for a in self.atoms()))

    def single(self):
        """The atom if this is exactly one atom."""
        if self.den == ONE and len(self.num) == 1:
            (m, c), = self.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None

    def subst(self, f):
        """Replace atoms by f(atom) -> R or None."""
        def pol(p):
            tot = R.c(0)
            for m, c in p.items():
                t = R.c(c)
                for a, e in m:
                    v = f(ATOMS[a])
                    b = R.a(ATOMS[a]) if v is None else v
                    for _ in range(e):
                        t = t * b
                tot = tot + t
            return tot
        if not any(f(ATOMS[a]) is not None for a in self.atoms()):
            return self
        n = pol(self.num)
        return n if self.den == ONE else n / pol(self.den)

    def __repr__(self):
        def pol(p):
            if not p:
                return "0"
            out = []
            for m, c in sorted(p.items()):
                s = "*".join((repr(ATOMS[a]) if e == 1 else f"{ATOMS[a]!r}^{e}") for a, e in m)
                if not m:
                    s = str(c)
                elif c == -1:
                    s = "-" + s
                elif c != 1:
                    s = f"{c}*{s}"
                out.append(s)
            return " + ".join(out).replace("+ -", "- ")
        if self.den == ONE:
            return pol(self.num)
        return f"({pol(self.num)})/({pol(self.den)})"


INF = R.a(atom(("inf",)))
NAN = R.a(atom(("nan",)))
ZERO = R.c(0)
ONE_R = R.c(1)


def elem(S, idx, field, kind="r"):
    return R.a(atom(("elem", S, _ik(idx), field), kind, (S, idx, field)))


class IK:
    """Index key: prints like the index, compares by normal form."""
    __slots__ = ("k", "r")

    def __init__(self, r):
        self.r = r
        self.k = r.key()

    def __eq__(self, o):
        return isinstance(o, IK) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return repr(self.r)


def _ik(idx):
    return IK(idx)


def size(S):
    return R.a(atom(("size", S), "i", (S,)))


# ---------------------------------------------------------------------------
# Linear reasoning: constraints  sum c_i x_i + c0  (<= | <) 0
class Budget(Exception):
    pass


def linearise(r):
    """R -> (dict var->coef, const). Monomials and whole ratios act as variables."""
    if r.den != ONE:
        if not r.num:
            return {}, Fr(0)
        c = r.num[min(r.num)]          # the same variable for a ratio, its negation and its multiples
        return {("ratio", tuple(sorted((m, x / c) for m, x in r.num.items())), tuple(sorted(r.den.items()))): Fr(c)}, Fr(0)
    lin, c0 = {}, Fr(0)
    for m, c in r.num.items():
        if m == ():
            c0 = c
        else:
            lin[m] = c
    return lin, c0


_MEMO = {}
_ORD = {}


def unsat_cons(cons):
    """Split into independent components, decide each once."""
    parent = {}

    def find(x):
        r = x
        while parent[r] is not r and parent[r] != r:
            r = parent[r]
        while parent[x] != r:
            parent[x], x = r, parent[x]
        return r
    groups = {}
    for lin, c0, st in cons:
        if not lin:
            if (c0 != 0) if st == "=" else (c0 > 0 or (c0 == 0 and st)):
                return True
            continue
        it = iter(lin)
        a = next(it)
        if a not in parent:
            parent[a] = a
        ra = find(a)
        for b in it:
            if b not in parent:
                parent[b] = ra
            else:
                rb = find(b)
                if rb != ra:
                    parent[rb] = ra
    for c in cons:
        if c[0]:
            groups.setdefault(find(next(iter(c[0]))), []).append(c)
    over = False
    for g in groups.values():
        k = frozenset((frozenset(l.items()), c0, st) for l, c0, st in g)
        v = _MEMO.get(k)
        if v is None:
            try:
                v = fm_unsat(g)
            except Budget:
                v = "?"
            if len(_MEMO) > 400000:
                _MEMO.clear()
            _MEMO[k] = v
        if v is True:
            return True
        if v == "?":
            over = True
    if over:
        raise Budget()
    return False


def _norm(lin, c0):
    """Integer coefficients without common factor."""
    g = 0
    for c in lin.values():
        g = gcd(g, c)
        if g == 1:
            return lin, c0
    if g > 1:
        if c0 % g:
            # keep the constant exact: only divide when everything divides
            h = gcd(g, c0)
            if h > 1:
                return {v: c // h for v, c in lin.items()}, c0 // h
            return lin, c0
        return {v: c // g for v, c in lin.items()}, c0 // g
    return lin, c0


def _toint(lin, c0):
    d = c0.denominator
    for c in lin.values():
        d = d * c.denominator // gcd(d, c.denominator)
    return _norm({v: int(c * d) for v, c in lin.items()}, int(c0 * d))


def _comb(a, ka, b, kb, drop):
    """ka*a + kb*b, with variable drop cancelled."""
    lin = {v: c * ka for v, c in a[0].items() if v != drop}
    for v, c in b[0].items():
        if v != drop:
            x = lin.get(v, 0) + c * kb
            if x:
                lin[v] = x
            else:
                del lin[v]
    return _norm(lin, a[1] * ka + b[1] * kb)


def fm_unsat(cons, limit=20000):
    """cons: list of (lin, c0, kind) meaning lin + c0 (<=|<|==) 0 for kind False/True/"=".
    True iff there is no real solution: Gaussian elimination of the equalities, then
    Fourier-Motzkin. Raises Budget if the elimination grows too large."""
    eqs, work = [], []
    for lin, c0, st in cons:
        l, c = _toint(lin, c0)
        (eqs if st == "=" else work).append((l, c, st))
    while eqs:
        e = min(eqs, key=lambda w: len(w[0]))
        eqs.remove(e)
        if not e[0]:
            if e[1] != 0:
                return True
            continue
        v = min(e[0], key=lambda x: abs(e[0][x]))
        c = e[0][v]

        def sub(w):
            k = w[0].get(v)
            if not k:
                return w
            # w*|c| - sign(c)*k*e
            l, c0 = _comb(w, abs(c), e, -k if c > 0 else k, v)
            return (l, c0, w[2])
        eqs = [sub(w) for w in eqs]
        work = [sub(w) for w in work]
    table = {}

    def put(tab, lin, c0, st):
        if not lin:
            return c0 > 0 or (c0 == 0 and st)
        key = frozenset(lin.items())
        old = tab.get(key)
        if old is None or c0 > old[1] or (c0 == old[1] and st and not old[2]):
            tab[key] = (lin, c0, st)
        return False
    for lin, c0, st in work:
        if put(table, lin, c0, st):
            return True
    work = list(table.values())
    n = 0
    while work:
        pos, neg = {}, {}
        for lin, _, _ in work:
            for v, c in lin.items():
                if c > 0:
                    pos[v] = pos.get(v, 0) + 1
                else:
                    neg[v] = neg.get(v, 0) + 1
        # variables bounded on one side only: all constraints that mention them are vacuous
        one = [v for v in pos if v not in neg] + [v for v in neg if v not in pos]
        if one:
            one = set(one)
            work = [w for w in work if not (one & w[0].keys())]
            continue
        best = min(pos, key=lambda v: pos[v] * neg[v] - pos[v] - neg[v])
        P = [w for w in work if w[0].get(best, 0) > 0]
        N = [w for w in work if w[0].get(best, 0) < 0]
        tab = {}
        for w in work:
            if best not in w[0]:
                put(tab, *w)
        for a in P:
            ca = a[0][best]
            for b in N:
                n += 1
                if n > limit:
                    raise Budget()
                cb = -b[0][best]
                g = gcd(ca, cb)
                lin, c0 = _comb(a, cb // g, b, ca // g, best)
                if put(tab, lin, c0, a[2] or b[2]):
                    return True
        work = list(tab.values())
        if len(work) > 1500:
            raise Budget()
    return False


class Facts:
    """Immutable-ish set of facts: list of (rel, R), rel in <=,<,==,!= against 0."""
    __slots__ = ("items", "set", "_sat", "axctx", "_ent", "_ints", "_ordc")

    def __init__(self, items=(), axctx=None):
        self.items = list(items)
        self.set = {(r, x.key()) for r, x in self.items}
        self._sat = None
        self._ent = {}
        self._ints = None
        self._ordc = {}
        self.axctx = axctx

    def copy(self):
        f = Facts.__new__(Facts)
        f.items = list(self.items)
        f.set = set(self.set)
        f._sat = self._sat
        f._ent = self._ent
        f._ints = self._ints
        f._ordc = self._ordc
        f.axctx = self.axctx
        return f

    def add(self, rel, r):
        c = r.const()
        if c is not None:
            ok = {"<=": c <= 0, "<": c < 0, "==": c == 0, "!=": c != 0}[rel]
            if ok:
                return
        if rel == "<" and r.is_int():
            rel, r = "<=", r + ONE_R
        k = (rel, r.key())
        if k in self.set:
            return
        self.set.add(k)
        self.items.append((rel, r))
        self._sat = None
        self._ent = {}
        if r.is_int():
            self._ints = None
            self._ordc = {}

    def ints(self):
        if self._ints is None:
            out = []
            for rel, r in self.items:
                if r.is_int() and r.den == ONE:
                    l, c = linearise(r)
                    if rel != "!=":
                        out.append((l, c, "=" if rel == "==" else rel == "<"))
            self._ints = out
            nes = [r for rel, r in self.items if rel == "!=" and r.is_int()]
            while nes:
                more, rest = [], []
                for r in nes:
                    o = self._int_order(r, ZERO)
                    l, c = linearise(r)
                    if o == ">=":
                        more.append(({m: -x for m, x in l.items()}, 1 - c, False))
                    elif o == "<=":
                        more.append((l, c + 1, False))
                    else:
                        rest.append(r)
                if not more:
                    break
                self._ints = self._ints + more
                nes = rest
        return self._ints

    def int_order(self, a, b):
        """Order of two integer expressions that the integer facts imply."""
        ck = (a.key(), b.key())
        v = self._ordc.get(ck)
        if v is None:
            v = self._ordc[ck] = self._int_order(a, b)
        return v

    def _int_order(self, a, b):
        d = a - b
        l, c = linearise(d)
        base = self.ints()
        # sizes are not negative
        sz = []
        ats = set()
        for w in base:
            for m in w[0]:
                for x, _ in m:
                    ats.add(x)
        for m in l:
            for x, _ in m:
                ats.add(x)
        for x in ats:
            if ATOMS[x].key[0] == "size":
                sz.append(({((x, 1),): Fr(-1)}, Fr(0), False))
        # only the facts connected to the query matter
        rel = set(l)
        pool = base + sz
        use = []
        grew = True
        while grew:
            grew = False
            rest = []
            for w in pool:
                if rel & w[0].keys():
                    rel |= w[0].keys()
                    use.append(w)
                    grew = True
                else:
                    rest.append(w)
            pool = rest
        key = (frozenset((frozenset(w[0].items()), w[1], w[2]) for w in use), frozenset(l.items()), c)
        v = _ORD.get(key)
        if v is None:
            neg = {m: -x for m, x in l.items()}
            try:
                le = fm_unsat(use + [(neg, -c + 1, False)])          # not d >= 1
                ge = fm_unsat(use + [(l, c + 1, False)])             # not d <= -1
                if le and ge:
                    v = "=="
                elif le:
                    v = "<" if fm_unsat(use + [(neg, -c, False)]) else "<="
                elif ge:
                    v = ">" if fm_unsat(use + [(l, c, False)]) else ">="
                else:
                    v = "?"
            except Budget:
                v = "?"
            _ORD[key] = v
        return v

    # -- constraint generation
    def _cons(self, extra=()):
        cons, nes = [], []
        for rel, r in list(self.items) + list(extra):
            lin, c0 = linearise(r)
            if rel == "==":
                cons.append((lin, c0, "="))
            elif rel == "!=":
                nes.append((lin, c0, r.is_int()))
            else:
                cons.append((lin, c0, rel == "<"))
        return cons, nes

    def _unsat(self, extra=(), depth=0):
        items = list(self.items) + list(extra)
        ax = axioms(items, self)
        cons, nes = self._cons(list(extra) + ax)
        # cone of influence is implicit in elimination
        if unsat_cons(cons):
            return True
        # use disequalities: lin != 0 with cons entailing lin <= 0 or >= 0
        changed = True
        used = set()
        while changed and nes and depth == 0:
            changed = False
            for i, (lin, c0, isint) in enumerate(nes):
                if i in used:
                    continue
                if not lin:
                    if c0 == 0:
                        return True
                    used.add(i)
                    continue
                neg = {v: -c for v, c in lin.items()}
                # entails lin+c0 <= 0 ?
                if unsat_cons(cons + [(neg, -c0, True)]):
                    used.add(i)
                    cons.append((lin, c0 + 1 if isint else c0, not isint))
                    changed = True
                elif unsat_cons(cons + [(lin, c0, True)]):
                    used.add(i)
                    cons.append((neg, -c0 + 1 if isint else -c0, not isint))
                    changed = True
            if changed and unsat_cons(cons):
                return True
        return False

    def unsat(self):
        if self._sat is None:
            try:
                self._sat = not self._unsat()
            except Budget:
                self._sat = True
        return not self._sat

    def entails(self, rel, r):
        """True if the facts imply (r rel 0)."""
        c = r.const()
        if c is not None:
            return {"<=": c <= 0, "<": c < 0, "==": c == 0, "!=": c != 0}[rel]
        if rel == "<" and r.is_int():
            rel, r = "<=", r + ONE_R
        k = (rel, r.key())
        if k in self.set:
            return True
        v = self._ent.get(k)
        if v is None:
            try:
                v = self._ent1(rel, r)
            except Budget:
                v = False
            if not v:
                v = self._split(rel, r)
            if not v and rel == "<=" and r.is_int():
                # the negation may order positions that were not ordered before
                f = self.copy()
                f.add("<=", ONE_R - r)
                v = f.unsat()
            self._ent[k] = v
        return v

    def _split(self, rel, r):
        """Case split on the minima and maxima that the query mentions."""
        mm = [ATOMS[a] for a in r.atoms() if ATOMS[a].key[0] in ("min", "max")]
        if not mm or len(mm) > 2:
            return False
        m = mm[0]
        me = R.a(m)
        for w, o in ((m.info[0], m.info[1]), (m.info[1], m.info[0])):
            f = self.copy()
            f._ent = {}
            f.add("<=", w - o if m.key[0] == "min" else o - w)
            r2 = r.subst(lambda a: w if a.n == m.n else None)
            f.items = [(q, x.subst(lambda a: w if a.n == m.n else None)) for q, x in f.items]
            f.set = {(q, x.key()) for q, x in f.items}
            f._sat = f._ints = None
            f._ordc = {}
            if not f.unsat() and not f.entails(rel, r2):
                return False
        return True

    def _ent1(self, rel, r):
        if rel == "<=":
            return self._unsat([("<", -r + (ONE_R if False else ZERO))] if not r.is_int() else [("<=", -r + ONE_R)])
        if rel == "<":
            return self._unsat([("<=", -r)])
        if rel == "==":
            if self._eqsyn(r):
                return True
            return self.entails("<=", r) and self.entails("<=", -r)
        if rel == "!=":
            return self._unsat([("==", r)]) or self.entails("<", r) or self.entails("<", -r)
        raise ValueError(rel)

    def _eqsyn(self, r):
        """Equality modulo the known equalities between atoms (substitution)."""
        sub = self.eqsubst()
        if not sub:
            return False
        x = r
        for _ in range(4):
            y = x.subst(lambda a: sub.get(a.n))
            if y.key() == x.key():
                break
            x = y
        return x.const() == 0

    def eqsubst(self):
        sub = {}
        for rel, r in self.items:
            if rel != "==" or r.den != ONE:
                continue
            for m, c in r.num.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0] not in sub:
                    a = m[0][0]
                    rest = R({k: v for k, v in r.num.items() if k != m})
                    if a in rest.atoms() or any(x in sub for x in rest.atoms()):
                        continue
                    sub[a] = -rest / R.c(c)
                    break
        return sub


INFA = atom(("inf",)).n


def axioms(items, facts):
    """Structural facts about the atoms that occur: sortedness of times, sizes >= 0,
    everything is below +inf."""
    out = []
    seen = set()
    for rel, r in items:
        seen |= r.atoms()
    # atoms inside index expressions of elements matter too
    frontier = set(seen)
    while frontier:
        nxt = set()
        for n in frontier:
            a = ATOMS[n]
            if a.key[0] == "elem":
                nxt |= a.info[1].atoms() - seen
        seen |= nxt
        frontier = nxt
    ctx = facts.axctx
    times = {}
    for n in seen:
        a = ATOMS[n]
        if a.key[0] == "size":
            out.append(("<=", -R.a(a)))
        elif a.key[0] == "op" and a.key[1] in (">>", "/", "%") and a.kind == "i":
            # shifting (dividing) a number that is not negative does not make it larger
            x, y = a.key[2].r, a.key[3].r
            if a.key[1] != ">>" and facts.int_order(y, ONE_R) not in (">=", ">", "=="):
                continue
            if facts.int_order(x, ZERO) in (">=", ">", "=="):
                out.append(("<=", R.a(a) - x))
                out.append(("<=", -R.a(a)))
        elif a.key[0] == "elem" and a.key[3] == "time":
            times.setdefault(a.info[0], []).append(a)
    if INFA in seen:
        out.append(("<=", R.c(1) - INF))
        for n in seen:
            a = ATOMS[n]
            if n != INFA and a.kind == "r" and a.key[0] != "nan":
                out.append(("<=", R.a(a) - INF))
                out.append(("<=", -R.a(a) - INF))
    sortd = ctx.sorted_seqs if ctx is not None else None
    for S, ats in times.items():
        if sortd is not None and not ctx.is_sorted(S):
            continue
        n = len(ats)
        order = {}
        for i in range(n):
            for j in range(i + 1, n):
                x, y = ats[i].info[1], ats[j].info[1]
                c = (x - y).const()
                if c is not None:
                    o = "<" if c < 0 else ">" if c > 0 else "=="
                else:
                    o = facts.int_order(x, y)
                order[i, j] = o
                order[j, i] = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                o = order[i, j]
                if o == "==":
                    if i < j:
                        out.append(("==", R.a(ats[i]) - R.a(ats[j])))
                elif o in ("<", "<="):
                    # leave out what follows through an element in between
                    if any(k != i and k != j and order[i, k] == "<" and order[k, j] == "<" for k in range(n)):
                        continue
                    out.append((o, R.a(ats[i]) - R.a(ats[j])))
    return out
