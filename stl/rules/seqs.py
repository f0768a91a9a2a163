"""Universal claims about sequences a function builds.

A claim is a statement about one element of a sequence at one position. It is checked
for every element the function adds, on every path and every loop edge (each edge is one
iteration from an arbitrary iteration satisfying the inferred invariant), which proves it
for every element of the result whatever its length."""
from rules.common import *
from loops import getloc


def sig_field(eng):
    import stdlib
    return stdlib.sig_field(eng)


def deref(eng, st, v):
    if isinstance(v, Ref):
        v = eng.read(st, v)
    n = 0
    while isinstance(v, Ptr) and v.ref is not None and n < 3:
        v = eng.read(st, v.ref)
        n += 1
    return v


def sigseq(eng, st, v):
    """Sample sequence of a signal value (object or pointer to one)."""
    v = deref(eng, st, v)
    if isinstance(v, Struct) and v.cls == SIG + "Signal":
        v = v.f.get(sig_field(eng))
    return v if isinstance(v, Seq) else None


def null_result(v):
    return isinstance(v, Ptr) and v.ref is None


class Item:
    """One element: its state, its position, its value, the sequence it sits in and where it was added."""
    __slots__ = ("st", "pos", "val", "seq", "idx", "where")

    def __init__(self, st, pos, val, seq, idx, where):
        self.st, self.pos, self.val, self.seq, self.idx, self.where = st, pos, val, seq, idx, where


class Walk:
    """All elements that can end up in a sequence."""

    def __init__(self, r, mk=True):
        self.r, self.eng, self.mk = r, r.eng, mk
        self.seen = set()
        self.items = []
        self.bases = []      # (state, base name, offset, where): ranges of other sequences taken as a whole
        self.splices = []
        self.overs = []      # (state, index, path, value, seq, where)
        self.bad = []
        self.revs = []       # reversed blocks: (state, segs, offset)

    def loop_of(self, S):
        L = self.r.loops.get(S[1])
        if L is None:
            return None, None
        for P in L.parts.values():
            if P.n == S[2]:
                return L, P
        return L, None

    def seq(self, st, v, where, own=None, rev=False):
        """own: names of the heads of the loop this value flows in (induction hypothesis)."""
        if not isinstance(v, Seq):
            self.bad.append((where, "sequence not understood"))
            return self
        self.segs(st, v.segs, v, ZERO, where, own)
        for idx, path, val in v.over:
            self.overs.append((st, idx, path, val, v, where))
        return self

    def segs(self, st, segs, v, pos, where, own):
        n = 0
        for s in segs:
            if s[0] == "item":
                self.items.append(Item(st, pos, s[1], v, n, where))
            elif s[0] == "base":
                self.base(st, s[1], pos, where, own, v)
            elif s[0] == "splice":
                self.splices.append((st, s[1], s[2], s[3], pos, where))
            elif s[0] == "rev":
                self.revs.append((st, s[1], pos, where))
                self.segs(st, s[1], Seq(s[1], v.et), ZERO, where, None)
            pos = pos + self.eng.seg_len(s)
            n += 1

    def base(self, st, S, pos, where, own, v):
        if isinstance(S, tuple) and S and S[0] == "phi":
            if own is not None and S[1] == own:
                if not (pos == ZERO):
                    self.bad.append((where, "elements moved inside a loop"))
                return
            c = S[3]
            if (S[1], c) in self.seen:
                return
            self.seen.add((S[1], c))
            L, P = self.loop_of(S)
            if P is None:
                self.bad.append((where, "loop not analysed"))
                return
            at = f"{L.fn.file if L.fn else '?'}:{(L.node or {}).get('l', 0)}" + (f" in {L.fn.qn}" if L.fn else "")
            for e in L.edges:
                self.seq(e.s1, getloc(self.eng, e.s1, c), at, own=S[1])
            return
        if self.mk and S in self.eng.mk:
            if S in self.seen:
                return
            self.seen.add(S)
            seq, st0 = self.eng.mk[S]
            self.seq(st0, seq, where, own)
            return
        self.bases.append((st, S, pos, where))


def walk(r, p, v=None):
    v = sigseq(r.eng, p.st, p.val if v is None else v)
    w = Walk(r)
    if v is None:
        w.bad.append((r.F, "result is not a signal that can be followed"))
        return w, None
    w.seq(p.st, v, r.F)
    return w, v


def fld(v, k):
    x = v.f.get(k) if isinstance(v, Struct) else None
    return x if isinstance(x, R) else None


def eqR(st, a, b):
    if not isinstance(a, R) or not isinstance(b, R):
        return None
    return a == b or st.facts.entails("==", a - b)


def line(x, t):
    """Value at t of the line through sample x."""
    return fld(x, "value") + fld(x, "derivative") * (t - fld(x, "time"))


def decide(st, ok):
    """Unestablished on an exact state is a violation, on an approximated one unknown."""
    if ok is True:
        return True
    if ok is None:
        return None
    return False if st.exact else None


def mm_cases(st, expr):
    """expr: R | ('max', e, f) | ('min', e, f) -> [(facts, R)] for every order of the operands."""
    if isinstance(expr, R):
        return [(st.facts, expr)]
    k, a, b = expr
    out = []
    for fa, x in mm_cases(st, a):
        class S:
            facts = fa
        for fb, y in mm_cases(S, b):
            for lo, hi in ((x, y), (y, x)):
                f = fb.copy()
                f.add("<=", lo - hi)
                if f.unsat():
                    continue
                out.append((f, lo if k == "min" else hi))
    return out


def is_mm(st, v, expr):
    """v equals the given min/max expression on every order of its operands."""
    if not isinstance(v, R):
        return None
    for f, w in mm_cases(st, expr):
        if not (v == w or f.entails("==", v - w)):
            return False
    return True
