"""Minimum and maximum over a sliding window [t + a, t + b] (C14)."""
from rules.common import *
from rules.seqs import *
from rules.sigrules import neighbours, unmk, same_elem
from loops import getloc

GHOST = ("ghost", "wedge")
WEDGE = "mono_wedge::mono_wedge_update"


def win_contract(C, F, c, o):
    from rules import robrules as rr
    key = "window"
    xs, ds = rr.params_of(F, "s"), rr.params_of(F, "d")
    if len(xs) != 1 or len(ds) != 2:
        o.check(None, key, F, "parameters not understood")
        return
    X = xs[0]
    a, b = (R.a(atom(d, "r")) for d in ds)

    def prep(eng, st):
        st.cells[GHOST] = ZERO
        st.facts.add("<=", -a)
        st.facts.add("<", a - b)
    r = C.run(F, at_prim=True, nofork=True, prep=prep)
    if rr.problems(C, F, r, o, key):
        return
    eng = r.eng
    n = eng.size(X)
    for p in r.throws:
        if p.exc.args == ("append",):
            continue
        ok = p.st.facts.entails("<=", n)
        if p.exc.args == ("at",) and not ok:
            o.check(decide(p.st, False), key + ":lookup", F, "looks up a time outside of the signal")
        else:
            o.check(decide(p.st, ok), key + ":throws", F, f"throws {p.exc.ty}")
    for p in r.returns:
        t = rr.base_term(eng, p.st, p.val)
        if isinstance(t, tuple) and t[:1] == ("rec",):
            G = C.resolve(t)
            if G is None or rr.role(G) != "win":
                o.check(None, key, F, "result not understood")
                continue
            got = C.verify(G)[0]
            o.check(None if got is None else decide(p.st, got == c), key, F, f"computes the {got}")
            args = [x for q, x in zip(G.params, t[2:]) if rr.letter(q["t"]) in "sd"]
            o.check(decide(p.st, args == [X] + list(ds)), key + ":operand", F, f"of {args}")
            continue
        v = sigseq(eng, p.st, p.val)
        if v is None:
            o.check(None, key, F, "result not understood")
            continue
        result(C, F, r, p, unmk(eng, v), X, a, b, c, o, key)


def bounds(st, X, n, a, b, m):
    t, end = elem(X, m, "time"), elem(X, n - ONE_R, "time")
    return t, least(st, t + a, end), least(st, t + b, end)


def least(st, u, v):
    """min(u, v) as the analysis spells it."""
    if st.facts.entails("<=", u - v):
        return u
    if st.facts.entails("<=", v - u):
        return v
    if v.key() < u.key():
        u, v = v, u
    return R.a(atom(("min", IK(u), IK(v)), "r", (u, v)))


def at_terms(st, v, X):
    out = {}
    rs = [v] + [x for _, x in st.facts.items]
    for x in rs:
        if isinstance(x, R):
            for y in x.atoms():
                A = ATOMS[y]
                if A.key[0] == "at" and A.info[0] == X:
                    out[A.n] = (R.a(A), A.info[1])
    return list(out.values())


def result(C, F, r, p, v, X, a, b, c, o, key):
    eng, st = r.eng, p.st
    n = eng.size(X)
    if st.facts.entails("<=", n):
        return
    ln = eng.seq_len(v)
    o.check(decide(st, eqR(st, ln, n)), key + ":length", F, f"{ln!r} samples for {n!r}")
    w = Walk(r).seq(st, v, F)
    for where, why in w.bad:
        o.check(None, key, where, why)
    for x in w.bases + w.splices + w.revs:
        o.check(None, key, x[-1], f"takes over {x[1]}")
    if w.overs:
        o.check(None, key, F, "samples are overwritten afterwards")
    # location of the result while it is built, and of the wedge
    zloc = next((s[1][3] for s in v.segs if s[0] == "base" and isinstance(s[1], tuple) and s[1][0] == "phi"), None)
    wed = [e for e in r.events if e.kind == "wedge"]
    roots = {(e.data["wedge"].root, e.data["wedge"].path) for e in wed}
    if len(roots) > 1 or zloc is None or not wed:
        o.check(None, key, F, "window bookkeeping not understood")
        o.misfit = True
        return
    wroot, wpath = roots.pop()
    if wpath:
        o.check(None, key, F, "window bookkeeping not understood")
        return
    L = outermost(r, zloc)
    w0 = getloc(eng, L.pre, (wroot, ())) if L is not None else None
    g0 = getloc(eng, L.pre, (GHOST, ())) if L is not None else None
    o.check(None if not isinstance(w0, Seq) else (not w0.segs and isinstance(g0, R) and g0 == ZERO) or None, key + ":start", F, "the window does not start empty")
    for e in r.events:
        if e.kind == "wedge":
            push(C, F, r, e, X, n, a, b, c, zloc, o, key)
        elif e.kind == "seqop" and e.data["ref"].root == wroot:
            pop(r, e, X, n, a, b, zloc, o, key)
    for it in w.items:
        item(r, it, X, n, a, b, c, wroot, o, key)


def outermost(r, loc):
    ls = [L for L in r.loops.values() if any(tuple(x) == tuple(loc) for x in L.changed)]
    return ls[0] if len(ls) == 1 else None


def current(r, st, zloc):
    z = getloc(r.eng, st, zloc)
    return r.eng.seq_len(z) if isinstance(z, Seq) else None


def push(C, F, r, e, X, n, a, b, c, zloc, o, key):
    st, eng = e.st, r.eng
    m = current(r, st, zloc)
    if st.facts.entails("<=", n):
        return
    g = getloc(eng, st, (GHOST, ()))
    val = e.data["val"]
    t, x = fld(val, "time"), fld(val, "value")
    if m is None or t is None or x is None or not isinstance(g, R):
        o.check(None, key + ":read", e.where, "not understood")
        return
    ok = same_elem(st, t, X, "time", g) and same_elem(st, x, X, "value", g)
    o.check(decide(st, ok), key + ":read", e.where, f"the sample read in number {g!r} is at {t!r}"[:250])
    m = spelled(st, X, m)
    _, lo, hi = bounds(st, X, n, a, b, m)
    o.check(decide(st, st.facts.entails("<=", t - hi)), key + ":read", e.where, "a sample after the window is read in")
    got = wedge_class(C, e.data.get("fn"))
    o.check(None if got is None else decide(st, got == c), key + ":wedge", e.where, f"the wedge keeps the {got}")


def spelled(st, X, m):
    for k in neighbours(st, X):
        if st.facts.entails("==", k - m):
            return k
    return m


def pop(r, e, X, n, a, b, zloc, o, key):
    st, eng = e.st, r.eng
    if st.facts.entails("<=", n):
        return
    if e.data["name"] != "pop_front":
        o.check(None, key + ":forget", e.where, f"{e.data['name']} on the window")
        return
    m = current(r, st, zloc)
    f = eng.seq_get(st, e.data["seq"], ZERO)
    t = fld(f, "time")
    if m is None or t is None:
        o.check(None, key + ":forget", e.where, "not understood")
        return
    _, lo, hi = bounds(st, X, n, a, b, spelled(st, X, m))
    o.check(decide(st, st.facts.entails("<=", t - lo)), key + ":forget", e.where, "a sample inside the window is forgotten")


def item(r, it, X, n, a, b, c, wroot, o, key):
    st, eng = it.st, r.eng
    if st.facts.entails("<=", n):
        return
    t, x = fld(it.val, "time"), fld(it.val, "value")
    if t is None or x is None:
        o.check(None, key + ":sample", it.where, "sample not understood")
        return
    ok = same_elem(st, t, X, "time", it.pos)
    o.check(decide(st, ok), key + ":times", it.where, f"sample {it.pos!r} is at {t!r}"[:200])
    m = spelled(st, X, it.pos)
    _, lo, hi = bounds(st, X, n, a, b, m)
    g = getloc(eng, st, (GHOST, ()))
    W = getloc(eng, st, (wroot, ()))
    if not isinstance(g, R) or not isinstance(W, Seq):
        o.check(None, key + ":window", it.where, "window not understood")
        return
    gs = spelled(st, X, g)
    ok = st.facts.entails("<=", n - g) or st.facts.entails("<=", hi - elem(X, gs, "time"))
    o.check(decide(st, ok), key + ":all read", it.where, "a sample inside the window has not been read in")
    ln = eng.seq_len(W)
    empty = st.facts.entails("<=", ln)
    full = st.facts.entails("<=", ONE_R - ln)
    front = eng.seq_get(st, W, ZERO) if not empty else None
    if not empty:
        ft = fld(front, "time")
        ok = None if ft is None else st.facts.entails("<=", lo - ft)
        o.check(decide(st, ok), key + ":forgotten", it.where, "the window still has a sample before its start")
    ats = at_terms(st, x, X)
    ends = []
    for u in (lo, hi):
        A = [q for q, at in ats if at == u or st.facts.entails("==", at - u)]
        ends.append(A[0] if A else None)
    odd = [(q, at) for q, at in ats if not any(at == u or st.facts.entails("==", at - u) for u in (lo, hi))]
    if odd:
        o.check(decide(st, False), key + ":ends", it.where, f"looks at {odd[0][1]!r}, which is not an end of the window"[:250])
        return
    if None in ends:
        # a missing end is an error unless the end is a sample or the two ends are the same
        which = "start" if ends[0] is None else "end"
        o.check(decide(st, False) if ats else None, key + ":ends", it.where, f"the {which} of the window is not looked at")
        return
    spec = (c, ends[0], ends[1])
    if not empty:
        fv = fld(front, "value")
        if fv is None or not full:
            o.check(None, key + ":value", it.where, "window not understood")
            return
        spec = (c, spec, fv)
    o.check(decide(st, is_mm(st, x, spec)), key + ":value", it.where, f"value {x!r}"[:250])


# ---- the monotonic wedge ------------------------------------------------------------------------
def wedge_class(C, F):
    """'min' / 'max' when the update keeps exactly the elements that are not beaten by the new one."""
    if F is None:
        return None
    memo = C.__dict__.setdefault("wedges", {})
    if F.key not in memo:
        memo[F.key] = None
        res = {}
        for c in ("min", "max"):
            res[c] = list(wedge_update(C, F, c))
        good = [c for c in res if res[c] and all(x[0] is True for x in res[c])]
        best = good[0] if len(good) == 1 else min(res, key=lambda c: (sum(x[0] is False for x in res[c]), sum(x[0] is None for x in res[c])))
        memo[F.key] = (best if good else None, res[best])
    return memo[F.key][0] if memo[F.key] else None


def wedge_update(C, F, c):
    r = C.ctx.analyse(F, noprim={F.qn, F.key})
    key = "wedge"
    if not r.ok or r.eng.gaveup:
        yield None, key, F, r.why or "loop without invariant"
        return
    eng = r.eng
    W, V = F.params[0]["n"], F.params[1]["n"]
    S = ("p", W)
    n = eng.size(S)
    val = None
    for p in r.throws:
        yield decide(p.st, False), key + ":throws", F, f"throws {p.exc.ty}"
    for p in r.returns:
        st = p.st
        w = st.cells.get(("in", W))
        v = eng.read(st, Ref(("in", V))) if ("in", V) in st.cells else None
        if not isinstance(w, Seq) or w.over or not w.segs or w.segs[-1][0] != "item":
            yield None, key, F, "result not understood"
            continue
        new = w.segs[-1][1]
        yield decide(st, new == v or all(fld(new, k) == fld(v, k) for k in ("time", "value"))), key + ":new", F, "the new value is not the last one"
        old = w.segs[:-1]
        if not old:
            m = ZERO
        elif len(old) == 1 and old[0][0] == "base" and old[0][1] == S:
            m = n
        elif len(old) == 1 and old[0][0] == "splice" and old[0][1] == S and old[0][2] == ZERO:
            m = old[0][3]
        else:
            yield None, key, F, "kept elements not understood"
            continue
        x = fld(v, "value")
        if x is None:
            yield None, key, F, "value not understood"
            continue
        sg = ONE_R if c == "min" else -ONE_R

        def near(i):
            for q in neighbours(st, S):
                if st.facts.entails("==", q - i):
                    return elem(S, q, "value")
            return elem(S, i, "value")
        ok = st.facts.entails("<=", m) or st.facts.entails("<=", sg * (near(m - ONE_R) - x))
        yield decide(st, ok), key + ":kept", F, "an element is kept that the new one beats"
        ok = st.facts.entails("<=", n - m) or st.facts.entails("<=", sg * (x - near(m)))
        yield decide(st, ok), key + ":dropped", F, "an element is dropped that the new one does not beat"
