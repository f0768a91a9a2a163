"""C11-C14: robustness semantics."""
from rules.common import *
from rules.seqs import *
from rules.sigrules import value_at, no_sample_between, neighbours, before, same_elem, name_of, unmk, sync_rules
from loops import getloc
import engine as _engine

SP = "std::shared_ptr<signal_tl::signal::Signal>"
ROOT = "signal_tl::semantics::compute_robustness"
ORDER = {"std::less": "min", "std::less_equal": "min", "std::greater": "max", "std::greater_equal": "max"}


def letter(t):
    t = strip_cvref(t)
    b, args = ptype(t)
    if t == SP or t == SP.replace("<", "<const ", 1):
        return "s"
    if b in ("std::vector", "std::deque") and args and strip_cvref(args[0]) == SP:
        return "v"
    if t in REALS:
        return "d"
    if t == "bool":
        return "b"
    if b.startswith("std::less") or b.startswith("std::greater"):
        return "f"
    return "?"


def shape(F):
    return "".join(letter(p["ct"] if letter(p["t"]) == "?" else p["t"]) for p in F.params)


ROLES = {"ss": "pair", "v": "fold", "s": "seq", "sdd": "win", "ssdd": "bounded"}


def role(F):
    s = shape(F)
    return None if "?" in s else ROLES.get(s.replace("f", "").replace("b", ""))


def sigfuns(ctx):
    """Free functions from signals to a signal."""
    seen, out = set(), []
    for F in ctx.prog.all_functions():
        if F.j.get("cls") or not F.qn.startswith("signal_tl::") or F.j.get("lambda") or "operator()" in F.qn:
            continue
        if letter(F.j["ret"]) != "s" or role(F) is None or F.j["b"] is None:
            continue
        k = (F.file, F.line, tuple(p["ct"] for p in F.params))
        if k in seen:
            continue
        seen.add(k)
        out.append(F)
    return out


class Obl:
    """Obligations collected before it is known whom they belong to."""

    def __init__(self):
        self.l = []
        self.misfit = False      # the function is built differently altogether

    def check(self, ok, key, where, text):
        self.l.append((ok, key, where, text))

    def bad(self):
        return sum(o[0] is False for o in self.l), sum(o[0] is None for o in self.l)


class Contracts:
    def __init__(self, ctx):
        self.ctx = ctx
        self.funs = sigfuns(ctx)
        self.keys = {F.key for F in self.funs}
        self.by = {}
        for F in self.funs:
            self.by.setdefault(F.qn, []).append(F)
        self.runs = {}
        self.res = {}
        self.busy = set()

    def resolve(self, t):
        """Function behind a call term ('rec', name, arguments...)."""
        if not (isinstance(t, tuple) and t[:1] == ("rec",)):
            return None
        c = [F for F in self.by.get(t[1], []) if len(F.params) == len(t) - 2]
        out = []
        for F in c:
            ok = True
            for p, a in zip(F.params, t[2:]):
                l = letter(p["t"])
                if l == "f":
                    ok = ok and isinstance(a, tuple) and a[0] == "val" and ptype(strip_cvref(p["t"]))[0] + "'" in a[1]
                elif l == "b":
                    ok = ok and (not isinstance(a, tuple) or a[0] == "val" or True)
            if ok:
                out.append(F)
        if len(out) > 1:
            rs = {role(F) for F in out}
            if len(rs) > 1:
                out = [F for F in out if (role(F) == "fold") == (not signal_term(t[2]))]
        return out[0] if len(out) == 1 else None

    def run(self, F, sync=False, **k):
        key = (F.key, sync)
        if key not in self.runs:
            args = [sync if letter(p["t"]) == "b" else None for p in F.params]
            self.runs[key] = self.ctx.analyse(F, args=args, noinline=self.keys - {F.key}, **k)
        return self.runs[key]

    def verify(self, F):
        """-> (class 'min' | 'max' | 'until' | None, obligations)"""
        if F.key in self.res:
            return self.res[F.key]
        if F.key in self.busy:
            return None, Obl()
        self.busy.add(F.key)
        best, alls = None, []
        rl = role(F)
        for c in CLASSES[rl]:
            o = Obl()
            CHECK[rl](self, F, c, o)
            b = o.bad()
            b = (o.misfit,) + b
            alls.append(b)
            if best is None or b < best[2]:
                best = (c, o, b)
            if b == (False, 0, 0):
                break
        self.busy.discard(F.key)
        known = best[2][1] == 0 and not best[2][0]
        if best[2][2] and sum(b[1] == 0 for b in alls) != 1:
            known = False        # open obligations, and no other class is ruled out
        self.res[F.key] = (best[0] if known else None, best[1])
        return self.res[F.key]


def signal_term(t):
    return isinstance(t, tuple) and t[0] in ("rec", "el", "fld", "p", "sync", "mapat", "alt")


CLASSES = {"pair": ("min", "max", "until"), "fold": ("min", "max"), "seq": ("min", "max"), "win": ("min", "max"), "bounded": ("refuse",)}


def cls_of(C, t):
    F = C.resolve(t)
    return C.verify(F)[0] if F is not None else None


def syncarg(F, t):
    """Value passed for 'already synchronised': True, False or None."""
    for p, a in zip(F.params, t[2:]):
        if letter(p["t"]) == "b":
            return {"('val', 'False')": False, "('val', 'True')": True}.get(repr(a))
    return False


def problems(C, F, r, o, key):
    if not r.ok or r.eng.gaveup:
        o.check(None, key, F, r.why or "loop without invariant")
        return True
    return False


def base_term(eng, st, v):
    """Name of the signal a result is, when it is one taken as a whole."""
    s = sigseq(eng, st, v)
    if s is not None and len(s.segs) == 1 and s.segs[0][0] == "base" and not s.over and s.segs[0][1] not in eng.mk:
        return s.segs[0][1]
    return None


# ---- two signals ------------------------------------------------------------------------------
def params_of(F, l):
    return [("p", p["n"]) for p in F.params if letter(p["t"]) == l]


def pair_contract(C, F, c, o):
    has_flag = "b" in shape(F)
    for sync in ((False, True) if has_flag else (False,)):
        if sync:
            xs = params_of(F, "s")

            def prep(eng, st, xs=xs):
                eng.tbase[xs[1]] = xs[0]
                eng.sbase[xs[1]] = xs[0]
            r = C.run(F, True, prep=prep)
        else:
            r = C.run(F, False)
        key = "until" if c == "until" else "pointwise"
        if problems(C, F, r, o, key):
            continue
        pair_body(C, F, r, c, o, sync, key)


def aligned(r, F, sync):
    """Names of the two aligned signals, first input first."""
    eng = r.eng
    X, Y = params_of(F, "s")
    if sync:
        return [(X, Y)]
    out = []
    for e in r.events:
        if e.kind == "sync":
            a = [name_of(eng, e.st, e.data[k]) for k in ("x", "y")]
            n = e.data["n"]
            if a == [X, Y]:
                out.append((n + ("x",), n + ("y",)))
            elif a == [Y, X]:
                out.append((n + ("y",), n + ("x",)))
    return list(dict.fromkeys(out))


def pair_body(C, F, r, c, o, sync, key):
    eng = r.eng
    als = aligned(r, F, sync)
    for p in r.throws:
        if p.exc.args != ("append",):
            o.check(decide(p.st, False), key + ":throws", F, f"throws {p.exc.ty}")
    for p in r.returns:
        t = base_term(eng, p.st, p.val)
        if isinstance(t, tuple) and t[:1] == ("rec",):
            G = C.resolve(t)
            if G is None or role(G) != "pair":
                o.check(None, key, F, "result not understood")
                continue
            ss = [a for q, a in zip(G.params, t[2:]) if letter(q["t"]) == "s"]
            want = params_of(F, "s")
            got = C.verify(G)[0]
            if got is None:
                o.check(None, key, F, f"relies on {G.qn}")
            else:
                o.check(decide(p.st, got == c), key, F, f"{'/'.join(CLASSES['pair'])}: calls the {got}")
            same = ss == want or (c != "until" and ss[::-1] == want)
            o.check(decide(p.st, same), key + ":operands", F, f"operands {ss}")
            sa = syncarg(G, t)
            o.check(decide(p.st, sa is False or sa == sync), key + ":aligned", F, "passes signals as aligned that need not be")
            continue
        v = sigseq(eng, p.st, p.val)
        if v is None:
            o.check(None, key, F, "result not understood")
            continue
        v = unmk(eng, v)
        if not als:
            whole = [s[1] for s in v.segs if s[0] == "base"]
            refs = {a for s in v.segs if s[0] == "item" for a in srcs(s[1])} | set(whole)
            o.check(decide(p.st, False) if refs & set(params_of(F, "s")) else None, key + ":aligned", F,
                    "works on signals that are not aligned")
            continue
        # the alignment used on this path
        use = [a for a in als if uses(r, v, a)] or als[:1]
        X, Y = use[0]
        n = eng.size(X)
        ln = eng.seq_len(v)
        if c == "until":
            until_items(C, F, r, p, v, X, Y, o)
            continue
        w = Walk(r).seq(p.st, v, F)
        o.misfit = o.misfit or bool(w.revs)
        for where, why in w.bad:
            o.check(None, key, where, why)
        for b in w.bases + w.splices:
            o.check(None if not (b[1] in (X, Y)) else decide(b[0], b[0].facts.entails("<=", eng.size(b[1]))), key, b[-1], f"takes over {b[1]}")
        if p.st.facts.entails("<=", ln):
            o.check(decide(p.st, p.st.facts.entails("<=", n)), key + ":all", F, "the result is empty")
            continue
        last = fld(eng.seq_get(p.st, v, ln - ONE_R), "time")
        o.check(decide(p.st, None if last is None else eqR(p.st, last, elem(X, n - ONE_R, "time"))), key + ":all", F, f"the last sample is at {last!r}")
        for it in w.items:
            pair_item(r, w, it, X, Y, c, o, key)


def srcs(v):
    out = set()
    for x in (v.f.values() if isinstance(v, Struct) else ()):
        if isinstance(x, R):
            out |= {ATOMS[a].info[0] for a in x.atoms() if ATOMS[a].key[0] == "elem"}
    return out


def uses(r, v, a):
    w = Walk(r).seq(r.eng.new_state(), v, r.F)
    return any(set(a) & srcs(it.val) for it in w.items)


def lines(st, S, m, t, T):
    """Value at t of the line from S[m] on, by stored slope or by the next sample (T has the same times as S)."""
    tm, v = elem(T, m, "time"), elem(S, m, "value")
    a = v + elem(S, m, "derivative") * (t - tm)
    b = v + (elem(S, m + ONE_R, "value") - v) / (elem(T, m + ONE_R, "time") - tm) * (t - tm)
    return a, b


def substituted(st, X, *vals):
    """The state with times known to equal sample times of X replaced by these, and the values likewise."""
    m = {}
    for rel, e in st.facts.items:
        if rel != "==" or e.den != R.c(1).den:
            continue
        ats = [ATOMS[a] for a in e.atoms()]
        if len(ats) != 2:
            continue
        for a, b in (ats, ats[::-1]):
            if a.key[0] == "elem" and a.info[0] != X and b.key[0] == "elem" and b.info[0] == X and a.key[3] == b.key[3] == "time" \
                    and ((R.a(a) - R.a(b)) == e or (R.a(b) - R.a(a)) == e):
                m[a.n] = R.a(b)
    if not m:
        return (st,) + vals
    sub = lambda x: x.subst(lambda a: m.get(a.n)) if isinstance(x, R) else x
    f = st.facts.copy()
    for rel, e in list(st.facts.items):
        if set(e.atoms()) & set(m):
            f.add(rel, sub(e))
    return (St(f, st.exact),) + tuple(sub(x) for x in vals)


def pair_item(r, w, it, X, Y, c, o, key):
    eng = r.eng
    t, v = fld(it.val, "time"), fld(it.val, "value")
    st, t, v = substituted(it.st, X, t, v)
    if t is None or v is None:
        o.check(None, key + ":sample", it.where, "sample not understood")
        return
    at = None
    for S in (X, Y):
        for m in neighbours(st, S, [t, v]):
            if t == elem(X, m, "time") or st.facts.entails("==", t - elem(X, m, "time")):
                at = m
                break
        if at is not None:
            break
    if at is not None:
        ok = is_mm(st, v, (c, elem(X, at, "value"), elem(Y, at, "value")))
        o.check(decide(st, ok), key + ":sample", it.where, f"{v!r} is not the {c} of the operands at {t!r}"[:300])
    else:
        ok_t = ok_v = False
        for m in {IK(x): x for S in (X, Y) for x in neighbours(st, S, [t, v])}.values():
            if not (st.facts.entails("<", elem(X, m, "time") - t) and st.facts.entails("<", t - elem(X, m + ONE_R, "time"))):
                continue
            ok_t = True
            ok_v = all(any(v == l or st.facts.entails("==", v - l) for l in lines(st, S, m, t, X)) for S in (X, Y))
        o.check(decide(st, ok_t), key + ":crossing", it.where, "an extra sample is not strictly between two aligned samples")
        if ok_t:
            o.check(decide(st, ok_v), key + ":crossing", it.where, "an extra sample does not carry the common value of both operands")
    pr = before(eng, w, it)
    if isinstance(pr, Top):
        o.check(None, key + ":all", it.where, pr.why)
    elif pr is None:
        o.check(decide(st, eqR(st, t, elem(X, ZERO, "time"))), key + ":all", it.where, f"the first sample is at {t!r}"[:200])
    else:
        tp = fld(pr, "time")
        if tp is not None:
            st, t, tp = substituted(it.st, X, fld(it.val, "time"), tp)
        ok = None if tp is None else no_sample_between(st, X, tp, t)
        o.check(decide(st, ok), key + ":all", it.where, "a sample of the operands is left out")
        if tp is not None and at is not None:
            ok = no_crossing(st, X, Y, tp, t)
            o.check(ok if ok is None else decide(st, ok), key + ":crossings", it.where, "a crossing of the operands is left out")


def no_crossing(st, X, Y, tp, t):
    """If tp and t are consecutive samples of X and Y: the signals do not cross strictly in between (or the
    path tested that the intersection of the two lines is outside). None: not consecutive samples."""
    m = next((m for m in neighbours(st, X, [t, tp]) if st.facts.entails("==", t - elem(X, m, "time"))), None)
    if m is None:
        return None
    p = m - ONE_R
    if not st.facts.entails("==", tp - elem(X, p, "time")):
        return True              # the sample before is itself an intersection
    t0, t1 = elem(X, p, "time"), elem(X, m, "time")

    def el(S, i, f):
        for q in neighbours(st, S):
            if st.facts.entails("==", q - i):
                return elem(S, q, f)
        return elem(S, i, f)
    d0 = el(X, p, "value") - el(Y, p, "value")
    d1 = el(X, m, "value") - el(Y, m, "value")
    slopes = (el(X, p, "derivative") - el(Y, p, "derivative"), (d1 - d0) / (t1 - t0))
    outside = [q for s in slopes for q in (-d0 / s, t1 - t0 + d0 / s)]
    for a, b in ((d0, -d1), (-d0, d1)):
        f = st.facts.copy()
        f.add("<", a)
        f.add("<", b)
        if f.unsat():
            continue
        if not any(rel in ("<=", "<", "==") and any(e == q for q in outside) for rel, e in f.items):
            return False
    return True


def until_items(C, F, r, p, v, X, Y, o):
    def spec(st, m, n, prev, at):
        x, y = elem(X, at(n - ONE_R - m), "value"), elem(Y, at(n - ONE_R - m), "value")
        return y if prev is None else ("max", y, ("min", x, prev))
    backwards(r, p, v, X, o, "until", spec)


def backwards(r, p, v, X, o, key, spec):
    """Result whose samples are computed from the last to the first one."""
    eng, st = r.eng, p.st
    n = eng.size(X)
    F = r.F
    ln = eng.seq_len(v)
    o.check(decide(st, eqR(st, ln, n)), key + ":length", F, f"{ln!r} samples for {n!r}")
    if st.facts.entails("<=", ln):
        return
    if len(v.segs) == 1 and v.segs[0][0] == "rev":
        w = Walk(r)
        w.segs(st, v.segs[0][1], Seq(v.segs[0][1], v.et), ZERO, F, None)
    elif all(s[0] == "item" for s in v.segs):
        segs = v.segs[::-1]
        w = Walk(r)
        w.segs(st, segs, Seq(segs, v.et), ZERO, F, None)
    else:
        o.misfit = True
        w = Walk(r)
        w.seq(st, v, F)
        for it in w.items:
            t = fld(it.val, "time")
            ok = None
            if t is not None and same_elem(it.st, t, X, "time", n - ONE_R - it.pos) and not same_elem(it.st, t, X, "time", it.pos):
                ok = decide(it.st, False)
            o.check(ok, key + ":order", it.where, "the samples are not in time order" if ok is False else "not computed backwards")
        return
    if v.over:
        o.check(None, key, F, "samples are overwritten afterwards")
    for where, why in w.bad:
        o.check(None, key, where, why)
    for b in w.bases + w.splices + w.revs:
        o.check(None, key, b[-1], f"takes over {b[1]}")
    for s, i, path, val, sv, where in w.overs:
        if path != ("derivative",):
            o.check(None, key, where, f"{path} is overwritten")
    for it in w.items:
        t, x = fld(it.val, "time"), fld(it.val, "value")
        if t is None or x is None:
            o.check(None, key + ":sample", it.where, "sample not understood")
            continue
        ok = same_elem(it.st, t, X, "time", n - ONE_R - it.pos)
        o.check(decide(it.st, ok), key + ":times", it.where, f"sample {it.pos!r} from the end is at {t!r}"[:250])
        pr = before(eng, w, it)
        if isinstance(pr, Top):
            o.check(None, key + ":sample", it.where, pr.why)
            continue
        prev = None if pr is None else fld(pr, "value")

        def at(i, it=it, t=t, x=x):
            """The index as the facts spell it."""
            for m in neighbours(it.st, X, [t, x]):
                if it.st.facts.entails("==", m - i):
                    return m
            return i
        if pr is not None and prev is None:
            o.check(None, key + ":sample", it.where, "previous sample not understood")
            continue
        ok = is_mm(it.st, x, spec(it.st, it.pos, n, prev, at))
        o.check(decide(it.st, ok), key + ":value", it.where, f"value {x!r} at {t!r}"[:300])


# ---- many signals -----------------------------------------------------------------------------
def fold_contract(C, F, c, o):
    r = C.run(F, False)
    key = "all operands"
    if problems(C, F, r, o, key):
        return
    (V,) = params_of(F, "v")

    def operand(t):
        if isinstance(t, tuple) and t[0] == "el" and t[1] == V:
            return t[2].r if isinstance(t[2], IK) else R.c(t[2]) if isinstance(t[2], int) else t[2] if isinstance(t[2], R) else None
        return None
    for p in r.throws:
        if p.exc.args != ("append",):
            o.check(decide(p.st, p.st.facts.entails("<=", r.eng.size(V))), key + ":throws", F, f"throws {p.exc.ty}")
    for p in r.returns:
        fold_path(C, r, p, F, c, o, key, r.eng.size(V), operand, V)


def fold_path(C, r, p, F, c, o, key, n, operand, V):
    eng, st = r.eng, p.st
    if st.facts.entails("<=", n):
        return
    t = base_term(eng, st, p.val)
    if t is None:
        o.check(None, key, F, "result not understood")
        return
    if t[0] == "phi" and isinstance(t[1], int):
        fold_loop(C, r, p, t, F, c, o, key, n, operand)
        return
    if t[:1] == ("rec",) and C.resolve(t) is not None and role(C.resolve(t)) == "fold":
        G = C.resolve(t)
        got = C.verify(G)[0]
        whole = [a for q, a in zip(G.params, t[2:]) if letter(q["t"]) == "v"] == [V]
        o.check(None if got is None else decide(st, got == c), key, F, f"computes the {got}")
        o.check(None if not whole else True, key, F, "the operands passed on are not understood")
        o.check(decide(st, syncarg(G, t) is False), key + ":aligned", F, "passes signals as aligned that need not be")
        return
    # a fixed tree of pairwise applications
    leaves = []
    if not tree(C, t, c, o, key, F, st, operand, leaves):
        o.check(None, key, F, "result not understood")
        return
    cnt = R.c(len(leaves))
    o.check(decide(st, eqR(st, n, cnt)), key, F, f"uses {len(leaves)} operands of {n!r}")
    for i in range(len(leaves)):
        o.check(decide(st, any(eqR(st, l, R.c(i)) for l in leaves)), key, F, f"operand {i} is left out")


def tree(C, t, c, o, key, F, st, operand, leaves):
    i = operand(t)
    if i is not None:
        leaves.append(i)
        return True
    G = C.resolve(t)
    if G is None or role(G) != "pair":
        return False
    got = C.verify(G)[0]
    o.check(None if got is None else decide(st, got == c), key, F, f"computes the {got}")
    o.check(decide(st, syncarg(G, t) is False), key + ":aligned", F, "passes signals as aligned that need not be")
    return all(tree(C, a, c, o, key, F, st, operand, leaves) for q, a in zip(G.params, t[2:]) if letter(q["t"]) == "s")


def ptr_name(v):
    if isinstance(v, Ptr) and v.ref is not None and v.ref.root[0] == "obj" and not v.ref.path:
        return v.ref.root[1]
    return None


def fold_loop(C, r, p, t, F, c, o, key, n, operand):
    eng = r.eng
    L = r.loops.get(t[1])
    if L is None:
        o.check(None, key, F, "loop not analysed")
        return
    loc = t[3]
    first = ptr_name(getloc(eng, L.pre, loc))
    init = operand(first) if first is not None else None
    if init is None:
        o.check(None, key, F, "start of the loop over the operands not understood")
        return
    offs = set()
    for e in L.edges:
        old, new = ptr_name(getloc(eng, e.s0, loc)), ptr_name(getloc(eng, e.s1, loc))
        if new == old:
            o.check(decide(e.s1, False), key, F, "an operand is skipped")
            continue
        G = C.resolve(new)
        if G is None or role(G) != "pair":
            o.check(None, key, F, "step of the loop over the operands not understood")
            continue
        got = C.verify(G)[0]
        o.check(None if got is None else decide(e.s1, got == c), key, F, f"computes the {got}")
        sa = syncarg(G, new)
        o.check(decide(e.s1, sa is False), key + ":aligned", F, "passes signals as aligned that need not be")
        ss = [a for q, a in zip(G.params, new[2:]) if letter(q["t"]) == "s"]
        rest = [a for a in ss if a != old]
        i = operand(rest[0]) if len(rest) == 1 else None
        if i is None:
            o.check(decide(e.s1, False) if all(a == old for a in ss) else None, key, F, "step of the loop over the operands not understood")
            continue
        k = ZERO if e.src == "pre" else L.k
        offs.add(i - k)
    if len(offs) != 1:
        if len(offs) > 1:
            o.check(None, key, F, "order of the operands not understood")
        return
    d = offs.pop()
    if d.const() is None:
        o.check(None, key, F, "order of the operands not understood")
        return
    # initial operand and the ones from d on, as long as the loop runs
    for src_, s, sig, kind in L.exits:
        k = ZERO if src_ == "pre" else L.k
        if s.facts.unsat():
            continue
        hi = eqR(s, n, k + d)
        ok = (d == ONE_R and eqR(s, init, ZERO) is True and hi) or (d == ZERO and eqR(s, n, k + ONE_R) and eqR(s, init, n - ONE_R))
        o.check(decide(s, bool(ok)), key, F, f"the loop combines operand {init!r} and the operands from {d!r} to {k + d!r} of {n!r}")


# ---- running minimum / maximum ------------------------------------------------------------------
def seq_contract(C, F, c, o):
    r = C.run(F)
    key = "running"
    if problems(C, F, r, o, key):
        return
    eng = r.eng
    (X,) = params_of(F, "s")
    for p in r.throws:
        if p.exc.args != ("append",):
            o.check(decide(p.st, False), key + ":throws", F, f"throws {p.exc.ty}")

    def spec(st, m, n, prev, at):
        x = elem(X, at(n - ONE_R - m), "value")
        return x if prev is None else (c, x, prev)
    for p in r.returns:
        t = base_term(eng, p.st, p.val)
        if isinstance(t, tuple) and t[:1] == ("rec",):
            G = C.resolve(t)
            if G is None or role(G) != "seq":
                o.check(None, key, F, "result not understood")
                continue
            got = C.verify(G)[0]
            o.check(None if got is None else decide(p.st, got == c), key, F, f"computes the {got}")
            ss = [a for q, a in zip(G.params, t[2:]) if letter(q["t"]) == "s"]
            o.check(decide(p.st, ss == [X]), key + ":operand", F, f"of {ss}")
            continue
        if t == X:
            n = eng.size(X)
            o.check(decide(p.st, p.st.facts.entails("<=", n - ONE_R)), key + ":value", F, "returns the operand itself")
            continue
        v = sigseq(eng, p.st, p.val)
        if v is None:
            o.check(None, key, F, "result not understood")
            continue
        backwards(r, p, unmk(eng, v), X, o, key, spec)


def bounded_contract(C, F, c, o):
    r = C.run(F)
    if not r.ok:
        o.check(None, "bounded until", F, r.why)
        return
    for p in r.returns:
        o.check(None, "bounded until", F, "is evaluated")
    for p in r.throws:
        o.check(decide(p.st, "not_implemented" in p.exc.ty), "bounded until", F, f"throws {p.exc.ty}")


def win_contract(C, F, c, o):
    import rules.winrules as W
    W.win_contract(C, F, c, o)


CHECK = {"pair": pair_contract, "fold": fold_contract, "seq": seq_contract, "win": win_contract, "bounded": bounded_contract}


def report(ctx, C, roles):
    """Obligations of the functions with the given roles."""
    for F in C.funs:
        if role(F) in roles:
            c, o = C.verify(F)
            for ok, key, where, text in o.l:
                ctx.check(ok, f"{F.qn.split('::')[-1]}:{key}", where, text)
            ctx.count("contracts")


# ---- evaluation of each kind of formula -------------------------------------------------------------
class Dispatch:
    def __init__(self, ctx):
        self.ctx = ctx
        self.C = Contracts(ctx)
        fs = [F for F in ctx.fns(ROOT)]
        if not fs:
            ctx.missing(ROOT)
        self.F = fs[0] if fs else None
        if self.F:
            eng = _engine.Engine(ctx.prog)
            self.t = strip_cvref(self.F.params[0]["t"])
            self.alts = eng.var_alts(eng.sym(self.t, ("p", "phi")))
            self.kinds = alt_kinds(self.t)
            self.phi = ("p", self.F.params[0]["n"])
            self.trace = ("p", self.F.params[1]["n"])

    def run(self, kind, tweak=None):
        """Evaluation of a formula of this kind; its operands are evaluated by opaque recursive calls."""
        n = self.kinds.index(kind)
        eng = _engine.Engine(self.ctx.prog)
        val = eng.sym(self.alts[n], ("alt", self.phi, n))
        if tweak:
            val = tweak(val)
        v = Var(self.t, self.phi, n, val)
        keys = {F.key for F in self.C.funs if F.key != self.F.key}

        def prep(eng, st):
            eng.visit_opaque = self.t
        return self.ctx.analyse(self.F, args=[v], noinline=keys, prep=prep)

    def node(self, kind):
        return ("alt", self.phi, self.kinds.index(kind))

    def operand(self, t, what):
        """Is the term the robustness of the operand described by the term `what`?"""
        return isinstance(t, tuple) and t[:1] == ("rec",) and self.C.resolve(t) is None and what in t[2:]

    def is_eval(self, t):
        return isinstance(t, tuple) and t[:1] == ("rec",) and self.C.resolve(t) is None

    def fields(self, kind):
        """Names of the members of the node: (operands, interval)."""
        n = self.kinds.index(kind)
        b, args = ptype(self.alts[n])
        eng = _engine.Engine(self.ctx.prog)
        cls = args[0] if args else self.alts[n]
        return dict(eng.field_types(strip_cvref(cls)) or [])


def field_of(d, pred):
    l = [k for k, t in d.items() if pred(strip_cvref(t))]
    return l[0] if len(l) == 1 else None


def c11(ctx):
    """compute_robustness is abstractly interpreted once per kind of atom (each comparison, both constants)
    and for negation, over a symbolic trace and signal: every sample of the result, at an arbitrary position,
    is compared with the required time and value; the number of samples, the name looked up and the outcome
    for a missing name are checked on every path; the span of constants is the minimum of the begin times and
    maximum of the end times over all entries by induction over the loop."""
    D = Dispatch(ctx)
    if D.F is None:
        return
    predicates(ctx, D)
    constants(ctx, D)
    negation(ctx, D)
    context(ctx, D)


def predicates(ctx, D):
    fl = D.fields("Predicate")
    fname = field_of(fl, lambda t: t.startswith("std::basic_string") or t == "std::string")
    fop = field_of(fl, lambda t: t.endswith("ComparisonOp"))
    frhs = field_of(fl, lambda t: t in REALS)
    if None in (fname, fop, frhs):
        ctx.missing("members of Predicate")
        return
    node = D.node("Predicate")
    for op in ("GT", "GE", "LT", "LE"):
        r = D.run("Predicate", lambda v: v.with_(fop, En(v.f[fop].en, op)))
        eng, F = r.eng, r.F
        key = f"predicate {op}"
        if not r.ok or eng.gaveup:
            ctx.check(None, key, F, r.why or "loop without invariant")
            continue
        rhs = eng.sym("double", ("fld", node, frhs))
        nm = ("fld", node, fname)
        X = ("mapat", D.trace, nm)
        for p in r.throws:
            if p.exc.args == ("append",):
                continue
            ctx.check(None if "out_of_range" not in p.exc.ty and not p.st.exact else "out_of_range" in p.exc.ty or None, key + ":missing name", F, f"throws {p.exc.ty}")
        if not [p for p in r.throws if p.exc.args != ("append",)]:
            ctx.check(False if all(p.st.exact for p in r.paths) else None, key + ":missing name", F, "a name that is not in the trace is no error")
        for e in r.events:
            if e.kind == "mapindex" and not e.data["found"]:
                ctx.check(decide(e.st, False), key + ":missing name", e.where, "a name that is not in the trace gets a new entry instead of an error")
            if e.kind == "nullderef":
                ctx.check(decide(e.st, False), key + ":missing name", e.where, "a null signal is used")
        for p in r.returns:
            w, v = walk(r, p)
            for where, why in w.bad:
                ctx.check(None, key, where, why)
            if v is None:
                continue
            st = p.st
            ln = eng.seq_len(unmk(eng, v))
            ss = {S for it in w.items for S in srcs(it.val)} | {b[1] for b in w.bases}
            wrong = [S for S in ss if S != X and isinstance(S, tuple) and S[0] in ("mapat", "mapval")]
            if wrong:
                ctx.check(decide(st, False), key + ":signal", F, f"uses {wrong[0]!r} instead of {X!r}")
                continue
            for b in w.bases + w.splices:
                ctx.check(None if b[1] != X else decide(b[0], False), key + ":value", b[-1], f"takes over {b[1]}")
            ctx.check(decide(st, eqR(st, ln, eng.size(X))), key + ":length", F, f"{ln!r} samples for {eng.size(X)!r}")
            for it in w.items:
                t, x = fld(it.val, "time"), fld(it.val, "value")
                if t is None or x is None:
                    ctx.check(None, key, it.where, "sample not understood")
                    continue
                ctx.check(decide(it.st, same_elem(it.st, t, X, "time", it.pos)), key + ":time", it.where, f"sample {it.pos!r} at {t!r}"[:200])
                u = x + rhs if op in ("GT", "GE") else rhs - x
                ctx.check(decide(it.st, same_elem(it.st, u, X, "value", it.pos)), key + ":value", it.where, f"sample {it.pos!r} has value {x!r}"[:250])


def constants(ctx, D):
    fl = D.fields("Const")
    fv = field_of(fl, lambda t: t == "bool")
    if fv is None:
        ctx.missing("member of Const")
        return
    for val in (True, False):
        r = D.run("Const", lambda v: v.with_(fv, val))
        eng, F = r.eng, r.F
        key = f"constant {str(val).lower()}"
        if not r.ok or eng.gaveup:
            ctx.check(None, key, F, r.why or "loop without invariant")
            continue
        want = INF if val else -INF
        n = eng.map_size(D.trace) if hasattr(eng, "map_size") else eng.size(D.trace)
        for p in r.throws:
            if p.exc.args != ("append",):
                ctx.check(decide(p.st, p.st.facts.entails("<=", n)), key + ":throws", F, f"throws {p.exc.ty}")
        seen = set()
        for p in r.returns:
            if p.st.facts.entails("<=", n):
                continue
            begins_first(ctx, r, D, p.st)
            if p.st.facts.unsat():
                continue
            st = p.st
            v = sigseq(eng, st, p.val)
            if v is not None:
                v = unmk(eng, v)
            if v is None or not v.segs or any(s[0] != "item" for s in v.segs):
                ctx.check(None, key, F, "result not understood")
                continue
            its = [s[1] for s in v.segs]
            for x in its:
                a = fld(x, "value")
                ctx.check(decide(st, None if a is None else eqR(st, a, want)), key + ":value", F, f"value {a!r}")
            tb, te = fld(its[0], "time"), fld(its[-1], "time")
            span(ctx, r, D, p, F, key, tb, "min", seen)
            span(ctx, r, D, p, F, key, te, "max", seen)


def begins_first(ctx, r, D, st):
    """The begin of a trace (least begin time) is not after its end (largest end time)."""
    A = {ATOMS[y] for rel, x in st.facts.items for y in x.atoms() if ATOMS[y].key[0] == "phi" and ATOMS[y].kind == "r"}
    lo = [x for x in A if span_loop(ctx, r, D, x, "min")[0] is True]
    hi = [x for x in A if span_loop(ctx, r, D, x, "max")[0] is True]
    for x in lo:
        for y in hi:
            st.facts.add("<=", R.a(x) - R.a(y))


def span(ctx, r, D, p, F, key, t, which, seen):
    """t is the smallest begin time (largest end time) over the whole trace: the value a loop over all
    entries computes."""
    eng, st = r.eng, p.st
    if t is None:
        ctx.check(None, key + ":span", F, "time not understood")
        return
    a = t.single()
    cands = [a] if a is not None and a.key[0] == "phi" else []
    if not cands:
        # equal to one by the facts of the path
        for rel, x in st.facts.items:
            for y in x.atoms():
                A = ATOMS[y]
                if A.key[0] == "phi" and st.facts.entails("==", t - R.a(A)):
                    cands.append(A)
    why = "no loop over the trace computes this time"
    res = None
    if not cands and t.const() is not None or cands == [] and a is not None and a.key[0] == "elem":
        res = decide(st, False)
    # every name equal to t on this path is a candidate; one that works is enough
    extra = {ATOMS[y] for rel, x in st.facts.items for y in x.atoms() if ATOMS[y].key[0] == "phi"} - set(cands)
    cands += [A for A in sorted(extra, key=lambda z: z.n) if st.facts.entails("==", t - R.a(A))]
    for A in cands:
        ok, wy = span_loop(ctx, r, D, A, which)
        if ok is True:
            res, why = True, ""
            break
        if res is None or ok is False:
            res, why = (False if st.exact and ok is False else res), wy
    if res is None:
        other = "max" if which == "min" else "min"
        if any(span_loop(ctx, r, D, A, other)[0] is True for A in cands):
            res, why = decide(st, False), f"the time is the {other} of the trace on this path"
    ctx.check(res, key + ":span", F, f"{'begin' if which == 'min' else 'end'}: {why}")


def span_loop(ctx, r, D, A, which):
    eng = r.eng
    L = r.loops.get(A.key[1])
    if L is None:
        return None, "loop not analysed"
    loc = A.key[3]
    init = getloc(eng, L.pre, loc)
    if not (isinstance(init, R) and init == (INF if which == "min" else -INF)):
        return None, "starting value not understood"
    bad = None
    for e in L.edges:
        old, new = getloc(eng, e.s0, loc), getloc(eng, e.s1, loc)
        k = ZERO if e.src == "pre" else L.k
        S = [s for s in mapvals(e.s1, D.trace) if isinstance(s[2], IK) and eqR(e.s1, s[2].r, k) or isinstance(s[2], int) and eqR(e.s1, R.c(s[2]), k) or isinstance(s[2], R) and eqR(e.s1, s[2], k)]
        if not S:
            return None, "entry of the trace not understood"
        S = S[0]
        n = eng.size(S)
        if e.s1.facts.entails("<=", n):
            continue
        x = elem(S, ZERO, "time") if which == "min" else elem(S, n - ONE_R, "time")
        ok = is_mm(e.s1, new, (which, old, x)) if isinstance(new, R) and isinstance(old, R) else None
        if ok is not True:
            if ok is None or not e.s1.exact:
                return None, "step of the loop over the trace not understood"
            bad = f"{new!r} is not the {which} of {old!r} and {x!r}"
    n = eng.size(D.trace)
    for src_, s, sig, kind in L.exits:
        k = ZERO if src_ == "pre" else L.k
        if not s.facts.unsat() and not eqR(s, n, k):
            return (False if s.exact else None), "not all entries of the trace are visited"
    return (True, "") if bad is None else (False, bad)


def mapvals(st, trace):
    out = []
    for rel, x in st.facts.items:
        for y in x.atoms():
            A = ATOMS[y]
            for s in ([A.info[0]] if A.key[0] == "elem" else [A.key[1]] if A.key[0] == "size" else []):
                if isinstance(s, tuple) and s[0] == "mapval" and s[1] in (trace, ("map", trace)) and s not in out:
                    out.append(s)
    return out


def negation(ctx, D):
    r = D.run("Not")
    eng, F = r.eng, r.F
    key = "negation"
    if not r.ok or eng.gaveup:
        ctx.check(None, key, F, r.why or "loop without invariant")
        return
    fa = [k for k in D.fields("Not")]
    ops = [("fld", D.node("Not"), k) for k in fa]
    for p in r.throws:
        if p.exc.args != ("append",):
            ctx.check(decide(p.st, False), key + ":throws", F, f"throws {p.exc.ty}")
    for p in r.returns:
        w, v = walk(r, p)
        for where, why in w.bad:
            ctx.check(None, key, where, why)
        if v is None:
            continue
        st = p.st
        names = {S for it in w.items for S in srcs(it.val)} | {b[1] for b in w.bases}
        names = {S for S in names if D.is_eval(S)} or \
            {S for S in evals(r, D) if D.is_eval(S) and st.facts.entails("<=", eng.size(S))} or evals(r, D)
        good = [S for S in names if any(D.operand(S, q) for q in ops)]
        if not good:
            ctx.check(None, key, F, "operand not understood")
            continue
        X = good[0]
        for b in w.bases + w.splices:
            ctx.check(decide(b[0], False) if b[1] == X else None, key + ":value", b[-1], "the operand's robustness is taken over")
        v = unmk(eng, v)
        ln = eng.seq_len(v)
        ctx.check(decide(st, eqR(st, ln, eng.size(X))), key + ":length", F, f"{ln!r} samples for {eng.size(X)!r}")
        for it in w.items:
            t, x = fld(it.val, "time"), fld(it.val, "value")
            if t is None or x is None:
                ctx.check(None, key, it.where, "sample not understood")
                continue
            ctx.check(decide(it.st, same_elem(it.st, t, X, "time", it.pos)), key + ":time", it.where, f"sample {it.pos!r} at {t!r}"[:200])
            ctx.check(decide(it.st, same_elem(it.st, -x, X, "value", it.pos)), key + ":value", it.where, f"sample {it.pos!r} has value {x!r}"[:200])


def evals(r, D):
    """Names of the recursive evaluations of a run."""
    return {("rec", e.data["fn"].qn) + tuple(e.data["terms"]) for e in r.events if e.kind == "opaque"}


def strip_phi(t, what):
    return tuple(x for x in t if x != what)


def context(ctx, D):
    """Operands are evaluated on the same trace and time span as the formula itself."""
    key = "operands: context"
    for kind in ("Not", "And", "Or", "Always", "Eventually", "Until"):
        r = D.run(kind)
        if not r.ok:
            ctx.check(None, key, r.F, r.why)
            continue
        tails = set()
        for t in evals(r, D):
            if not D.is_eval(t):
                continue
            for a in t[2:]:
                tr = trace_in(a)
                for x in tr:
                    tails.add(x)
        bad = [x for x in tails if x != D.trace]
        exact = all(p.st.exact for p in r.paths)
        ctx.check(True if not bad else (False if exact and not r.eng.gaveup else None), key, r.F, f"{kind}: evaluates an operand on another trace {bad[:1]!r}")


def trace_in(a):
    out = []
    if isinstance(a, tuple) and a and a[0] == "st":
        for x in a[2:]:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
                y = x[1]
                if x[0] == "trace" or (isinstance(y, tuple) and y[:1] == ("p",)):
                    out.append(y)
    elif isinstance(a, tuple) and a[:1] == ("p",):
        out.append(a)
    return out


# ---- C12 ---------------------------------------------------------------------------------------------
def c12(ctx):
    """compute_robustness of a conjunction (disjunction) is shown to apply the n-ary minimum (maximum) to the
    robustness of all operands, each once; the n-ary operation to fold the binary one over all of its
    signals, each once, without claiming an alignment it does not have; and for the binary one every sample
    appended on any path or loop edge is shown to be the min (max) of the aligned operands at a sample time,
    or a point common to both operand lines strictly between two sample times, with no sample left out.
    Alignment itself is C10, whose obligations are included."""
    D = Dispatch(ctx)
    sync_rules(ctx)
    report(ctx, D.C, ("fold",))
    for F in D.C.funs:
        if role(F) == "pair":
            c, o = D.C.verify(F)
            if kind_of_pair(o) != "until":
                for ok, key, where, text in o.l:
                    ctx.check(ok, f"{F.qn.split('::')[-1]}:{key}", where, text)
    if D.F is None:
        return
    for kind, c in (("And", "min"), ("Or", "max")):
        junction(ctx, D, kind, c)


def kind_of_pair(o):
    return "until" if any(k.startswith("until") for _, k, *_ in o.l) else "pointwise"


def held(ctx, C, G, c, kind):
    """A function that was not recognised is held to what the operator needs of it: does it break that?"""
    memo = ctx.__dict__.setdefault("held", {})
    if (G.key, c) not in memo:
        o = Obl()
        CHECK[role(G)](C, G, c, o)
        memo[G.key, c] = [x for x in o.l if x[0] is False and (not o.misfit or x[1].endswith(":order"))]
        for ok, key, where, text in memo[G.key, c]:
            ctx.check(False, f"{kind}:operator:{key}", where, text)
    return bool(memo[G.key, c])


def junction(ctx, D, kind, c):
    r = D.run(kind)
    eng, F, C = r.eng, r.F, D.C
    key = f"{kind}"
    if not r.ok or eng.gaveup:
        ctx.check(None, key, F, r.why or "loop without invariant")
        return
    ops = [k for k, t in D.fields(kind).items() if ptype(strip_cvref(t))[0] in ("std::vector", "std::deque")]
    if len(ops) != 1:
        ctx.missing(f"operands of {kind}")
        return
    A = ("fld", D.node(kind), ops[0])
    n = eng.size(A)

    def operand(t):
        if not D.is_eval(t):
            return None
        for a in t[2:]:
            if isinstance(a, tuple) and a[0] == "el" and a[1] == A:
                return a[2].r if isinstance(a[2], IK) else R.c(a[2]) if isinstance(a[2], int) else None
        return None
    o = Obl()
    for p in r.throws:
        if p.exc.args != ("append",):
            o.check(decide(p.st, p.st.facts.entails("<=", n - ONE_R)), key + ":throws", F, f"throws {p.exc.ty}")
    for p in r.returns:
        st = p.st
        if st.facts.entails("<=", n - ONE_R):
            continue
        t = base_term(eng, st, p.val)
        G = C.resolve(t)
        if G is not None and role(G) == "fold":
            got = C.verify(G)[0]
            if got is None and held(ctx, C, G, c, kind):
                continue
            o.check(None if got is None else decide(st, got == c), key, F, f"computes the {got} of the operands ({G.qn})")
            o.check(decide(st, syncarg(G, t) is False), key + ":aligned", F, "passes signals as aligned that need not be")
            vec = [a for q, a in zip(G.params, t[2:]) if letter(q["t"]) == "v"][0]
            if not (isinstance(vec, tuple) and vec[0] in ("phi", "seqv")):
                o.check(None, key, F, "operands not understood")
                continue
            sq = eng.seqterms[vec] if vec[0] == "seqv" else Seq([("base", vec)], SP)
            w = Walk(r).seq(st, sq, F)
            for where, why in w.bad:
                o.check(None, key, where, why)
            for b in w.bases + w.splices + w.revs:
                o.check(None, key, b[-1], "takes over a range")
            for it in w.items:
                i = operand(ptr_name(it.val))
                o.check(None if i is None else decide(it.st, eqR(it.st, i, it.pos)), key + ":operands", it.where, f"position {it.pos!r} holds operand {i!r}")
            ln = eng.seq_len(sq)
            o.check(decide(st, eqR(st, ln, n)), key + ":operands", F, f"{ln!r} of {n!r} operands"[:200])
            continue
        fold_path(C, r, p, F, c, o, key, n, operand, A)
    for ok, k, where, text in o.l:
        ctx.check(ok, k, where, text)


# ---- C13 ---------------------------------------------------------------------------------------------
def c13(ctx):
    """The running minimum (maximum) and until are computed from the last sample to the first: every sample
    appended, on the path before the loop and on every loop edge, is shown to have the operand's time at that
    position and the value op(operand there, value appended just before), respectively
    max(psi, min(phi, value appended just before)); the count and the final order are checked; the evaluation
    of Always (Eventually, Until) without interval is shown to apply the minimum (maximum, until) to the
    robustness of its operands in order."""
    D = Dispatch(ctx)
    report(ctx, D.C, ("seq",))
    for F in D.C.funs:
        if role(F) == "pair":
            c, o = D.C.verify(F)
            if kind_of_pair(o) == "until":
                for ok, key, where, text in o.l:
                    ctx.check(ok, f"{F.qn.split('::')[-1]}:{key}", where, text)
    if D.F is None:
        return
    sync_rules(ctx)
    for kind, c in (("Always", "min"), ("Eventually", "max"), ("Until", "until")):
        temporal(ctx, D, kind, c, "unbounded")


def interval_cases(ctx, D, kind, r, p):
    """(a, b) of the interval on a path, for every way the bounds can be stored."""
    fi = field_of(D.fields(kind), lambda t: t.split("::")[-1] == "Interval")
    if fi is None:
        return None
    fs = ctx.fns(AST + "Interval::as_double")
    if not fs:
        return None
    eng0 = _engine.Engine(ctx.prog)
    this = eng0.sym(AST + "Interval", ("fld", D.node(kind), fi))
    q = ctx.analyse(fs[0], this=this)
    out = []
    for x in q.returns:
        v = x.val if not isinstance(x.val, Ref) else q.eng.read(x.st, x.val)
        if not isinstance(v, Struct) or len(v.f) != 2:
            return None
        a, b = v.f.values()
        if not isinstance(a, R) or not isinstance(b, R):
            return None
        if any(p.st.alts.get(k, n) != n for k, n in x.st.alts.items()):
            continue
        f = p.st.facts.copy()
        for rel, z in x.st.facts.items:
            f.add(rel, z)
        f.add("<=", -a)
        f.add("<", a - b)
        f.add("<=", b - INF)
        f.add("<", a - INF)
        if not f.unsat():
            out.append((f, a, b))
    return out


class St:
    def __init__(self, facts, exact):
        self.facts, self.exact = facts, exact


def temporal(ctx, D, kind, c, what):
    r = D.run(kind)
    eng, F, C = r.eng, r.F, D.C
    if not r.ok or eng.gaveup:
        ctx.check(None, kind, F, r.why or "loop without invariant")
        return
    ops = operands(D, kind)
    if ops is None:
        ctx.missing(f"operands of {kind}")
        return
    names = evals(r, D)
    for p in r.paths:
        cases = interval_cases(ctx, D, kind, r, p)
        if cases is None:
            ctx.check(None, kind, F, "interval not understood")
            return
        for f, a, b in cases:
            st = St(f, p.st.exact)
            full = f.entails("==", a) and f.entails("==", b - INF)
            if p.exc:
                if p.exc.args == ("append",):
                    continue
                if what == "bounded":
                    ok = kind == "Until" and "not_implemented" in p.exc.ty and not full
                    ctx.check(decide(st, ok), f"{kind}:throws", F, f"throws {p.exc.ty}" + (" without an interval" if full else ""))
                elif full:
                    ctx.check(decide(st, False), f"{kind}:throws", F, f"throws {p.exc.ty} without an interval")
                continue
            t = base_term(eng, p.st, p.val)
            G = C.resolve(t)
            if G is None:
                if D.is_eval(t) and any(D.operand(t, x) for x in ops):
                    if what == "bounded" or full:
                        ctx.check(decide(st, False), f"{kind}:operator", F, "returns the robustness of the operand itself")
                else:
                    ctx.check(None, kind, F, "result not understood")
                continue
            ss = [x for q, x in zip(G.params, t[2:]) if letter(q["t"]) == "s"]
            ds = [x for q, x in zip(G.params, t[2:]) if letter(q["t"]) == "d"]
            right = len(ss) == len(ops) and all(D.operand(s, x) for s, x in zip(ss, ops))
            known_ = all(D.is_eval(s) for s in ss)
            rl = role(G)
            if what == "unbounded":
                if ds:
                    if full:
                        # a window that reaches to the end is the same thing
                        ctx.check(None, f"{kind}:operator", F, "evaluates a window although there is no interval")
                    continue
                got = C.verify(G)[0]
                if got is None and held(ctx, C, G, c, kind):
                    continue
                ctx.check(None if got is None else decide(st, got == c), f"{kind}:operator", F, f"computes the {got} ({G.qn})")
                ctx.check(decide(st, right) if known_ else None, f"{kind}:operands", F, f"operands {[str(s)[:80] for s in ss]}")
                continue
            # bounded
            if rl in ("seq", "pair"):
                ok = full
                if not ok and rl == "seq" and known_:
                    S = ss[0]
                    n = eng.size(S)
                    g = f.copy()
                    g.add("<=", ONE_R - n)
                    dur = elem(S, n - ONE_R, "time") - elem(S, ZERO, "time")
                    ok = g.unsat() or (g.entails("==", a) and (g.entails("==", b - INF) or g.entails("<=", dur - b)))
                    if not ok and g.entails("==", a):
                        # (n - 1 spelled differently, or a one-sample signal)
                        g.add("<=", R.c(2) - n)
                        ok = g.unsat()
                ctx.check(decide(st, ok), f"{kind}:interval ignored", F, f"evaluates without the bounds [{a!r}, {b!r}]"[:250])
            elif rl == "win":
                key = [a.single().key if a.single() else IK(a), b.single().key if b.single() else IK(b)]
                ctx.check(decide(st, list(ds) == key), f"{kind}:bounds", F, f"evaluates the window {[str(d)[:90] for d in ds]}")
                got = C.verify(G)[0]
                if got is None and held(ctx, C, G, c, kind):
                    continue
                ctx.check(None if got is None else decide(st, got == c), f"{kind}:window operator", F, f"computes the {got} ({G.qn})")
                ctx.check(decide(st, right) if known_ else None, f"{kind}:operands", F, f"operands {[str(s)[:80] for s in ss]}")
            elif rl == "bounded":
                got = C.verify(G)[0]
                ctx.check(None if got != "refuse" else decide(st, not full), f"{kind}:refused", F, f"refuses [{a!r}, {b!r}]"[:200])
            else:
                ctx.check(None, kind, F, "result not understood")


# ---- C14 ---------------------------------------------------------------------------------------------
def c14(ctx):
    """The windowed minimum (maximum) is checked with a counter of the samples read in: every sample read is the
    next one of the operand and not after min(t+b, end); every sample forgotten is before min(t+a, end); when a
    result sample is appended at the operand's time t, all samples up to the window's end have been read, the
    front of the wedge is inside the window, and the value is the minimum (maximum) of the signal at both ends of
    the window and the front. The wedge update keeps exactly the elements the new one does not beat (proved from
    its own source). On every path of the evaluation of Always, Eventually and Until with an interval, the bounds
    handed over are those of the interval, an unbounded evaluation needs a window that always reaches the end, and
    a bounded Until throws not_implemented."""
    D = Dispatch(ctx)
    report(ctx, D.C, ("win", "bounded"))
    for got in D.C.__dict__.get("wedges", {}).values():
        for ok, key, where, text in (got[1] if got else ()):
            ctx.check(ok, key, where, text)
    if not any(role(F) == "win" for F in D.C.funs):
        ctx.missing("windowed minimum and maximum")
    if D.F is None:
        return
    for kind, c in (("Always", "min"), ("Eventually", "max"), ("Until", "until")):
        temporal(ctx, D, kind, c, "bounded")


def operands(D, kind):
    """Terms of the operand formulas in order."""
    fl = D.fields(kind)
    node = D.node(kind)
    l = [(k, t) for k, t in fl.items() if strip_cvref(t).split("::")[-1] != "Interval"]
    if len(l) != 1:
        return [("fld", node, k) for k, t in l] if kind == "Until" and len(l) == 2 else None
    k, t = l[0]
    if kind != "Until":
        return [("fld", node, k)]
    return [("fld", ("fld", node, k), x) for x in ("first", "second")]
