"""C06-C08, C10, C19-C21: signals."""
from rules.common import *
import loops
from rules.seqs import *
from loops import getloc

S_ = SIG + "Signal"
SAMPLE = SIG + "Sample"
PUSH = S_ + "::push_back"
INFV = float("inf")
NANV = float("nan")


def members(ctx, ctor=False):
    seen, out = set(), []
    for F in ctx.prog.all_functions():
        if F.j.get("clst") != S_ or "(anonymous" in F.qn or F.j.get("defaulted") or F.j.get("impl"):
            continue
        if bool(F.j.get("ctor")) != ctor:
            continue
        k = (F.file, F.line, tuple(p["ct"] for p in F.params))
        if k not in seen:
            seen.add(k)
            out.append(F)
    return out


def atom_of(r):
    a = r.single() if isinstance(r, R) else None
    return a.n if a is not None else None


def pushes(ctx):
    fs = ctx.fns(PUSH)
    if not fs:
        ctx.missing(PUSH)
    out = []
    for F in fs:
        r = ctx.analyse(F, noprim={PUSH})
        if not r.ok:
            ctx.check(None, "append", F, r.why)
            continue
        st = r.eng.new_state()
        if len(F.params) == 1:
            x = r.eng.sym(F.params[0]["t"], ("p", F.params[0]["n"]))
            t, v = fld(x, "time"), fld(x, "value")
        else:
            t, v = (r.eng.sym("double", ("p", q["n"])) for q in F.params[:2])
        out.append((F, r, t, v))
    return out


def this_seq(r, p):
    o = p.st.cells.get(("in", "this"))
    if isinstance(o, Struct):
        return o.f.get(sig_field(r.eng))
    return None


# ---- C06 ------------------------------------------------------------------------------------------
def c06(ctx):
    """The append operation is abstractly interpreted; every order type of the new time relative to the
    end time ({empty} and {<, just below, =, just above, >, infinite, NaN}) is looked up among the branch
    literals of its paths: accepted exactly when later, and a throwing path leaves the samples untouched.
    The stored samples are private, no member hands out a writable reference, pointer or iterator to
    them, and every write to them anywhere in the analysed members is either an append or the addition of
    one loop-invariant offset to the time of every element in turn."""
    for F, r, t, v in pushes(ctx):
        S = ("p", "this")
        n, last = atom_of(r.eng.size(S)), atom_of(elem(S, r.eng.size(S) - ONE_R, "time"))
        for size_, lt, nt in [(0, 0.0, x) for x in (-1.0, 0.0, 3.0)] + \
                [(3, 5.0, x) for x in (-INFV, -5.0, 4.0, 4.999999999, 5.0, 5.000000001, 6.0, 1e300, INFV, NANV)] + \
                [(1, b, x) for b in (0.0, -3.0) for x in (-4.0, -3.0, -1.0, 0.0, 2.0, NANV)]:
            env = {n: float(size_), last: lt, atom_of(t): nt, INF.single().n: INFV}
            hit = [p for p in r.paths if consistent(p.st, env) is not False]
            ctx.count("order_types")
            want = size_ == 0 or nt > lt
            kinds = {p.exc is None for p in hit}
            if len(kinds) != 1:
                bad = [p for p in hit if (p.exc is None) != want and feasible(p.st, env)]
                ctx.check(False if bad else None, "append", F,
                          f"a sample at {nt} can be {'rejected' if want else 'accepted'} by a signal "
                          + ("without samples" if size_ == 0 else f"ending at {lt}"))
                continue
            ctx.check(exact_all(hit, kinds == {want}), "append", F,
                      f"a sample at {nt} is {'accepted' if kinds == {True} else 'rejected'} by a signal "
                      + ("without samples" if size_ == 0 else f"ending at {lt}"))
        for p in r.paths:
            seq = this_seq(r, p)
            if not isinstance(seq, Seq):
                ctx.check(None, "append:content", F, "samples not understood")
                continue
            if p.exc:
                same = seq.segs == (("base", S),) and not seq.over
                ctx.check(decide(p.st, same), "append:rejected", F, "a rejected sample changes the signal")
                continue
            ok = len(seq.segs) == 2 and seq.segs[0] == ("base", S) and seq.segs[1][0] == "item"
            it = seq.segs[1][1] if ok else None
            good = ok and eqR(p.st, fld(it, "time"), t) is True and eqR(p.st, fld(it, "value"), v) is True
            ctx.check(decide(p.st, good), "append:content", F, "the samples afterwards are not the old ones and the new one")
            for i, path, val in seq.over:
                ctx.check(decide(p.st, path == ("derivative",)), "append:old samples", F, f"changes {path} of a stored sample")
    access(ctx)
    raw_writes(ctx)


def feasible(st, env):
    """Is the path certainly taken for some input with these (finite) values?"""
    if not st.exact or any(x != x or abs(x) == INFV for a, x in env.items() if a != INF.single().n):
        return False
    f = st.facts.copy()
    for a, x in env.items():
        if a != INF.single().n:
            f.add("==", R.a(ATOMS[a]) - R.c(Fr(x)))
    return not f.unsat()


def exact_all(paths, ok):
    if ok:
        return True
    return False if all(p.st.exact for p in paths) else None


def access(ctx):
    rec = ctx.prog.records.get(S_)
    if rec is None:
        ctx.missing(S_)
        return
    fs = [f for f in rec["fields"] if ptype(f["t"])[0] in ("std::vector", "std::deque") and SAMPLE in f["t"]]
    if not fs:
        ctx.missing("the samples of a Signal")
    where = f"{rec['file']}:{rec['l']} ({S_})"
    for f in fs:
        ctx.check(f["access"] != "public", "access:field", where, f"{f['n']} can be written from outside")
        ctx.check(not f.get("mut"), "access:mutable", where, f"{f['n']} is mutable")
    for m in rec["methods"]:
        if m.get("tpl") or m.get("access") != "public" or not m.get("ret"):
            continue
        ctx.check(not writable(m["ret"]), "access:leak", f"{rec['file']}:{m['l']} ({m['qn']})", f"returns {m['ret'][:80]}")
    for F in ctx.prog.all_functions():
        for e in nodes(F.j.get("b")):
            if e.get("k") == "cast" and e.get("st") in ("CXXConstCastExpr", "CXXReinterpretCastExpr"):
                ctx.check(None, "access:cast", f"{F.file}:{e.get('l', F.line)} ({F.qn})", "casts away types")


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from nodes(v)


def writable(t):
    """Type gives write access to a sample (non-const reference, pointer or iterator)."""
    t = t.strip()
    if SAMPLE not in t:
        return False
    if t.endswith("&") and not t.endswith("&&"):
        return not t.startswith("const ")
    b, a = ptype(t)
    if t.endswith("*"):
        return not t.startswith("const ")
    if "iterator" in b:
        inner = a[0].strip() if a else ""
        return writable(inner) if ("iterator" in inner or inner.endswith("*")) else False
    if b in ("std::reference_wrapper", "std::span"):
        return bool(a) and not a[0].strip().startswith("const ")
    return False


def raw_writes(ctx):
    """Writes to stored samples that are not appends."""
    for F in members(ctx):
        if F.qn == PUSH:
            continue
        r = ctx.analyse(F, noinline=producers(ctx, F))
        if not r.ok:
            ctx.check(None, "raw write", F, r.why)
        check_raw(ctx, r, F)
    for F in members(ctx, ctor=True):
        r = ctx.construct(F, S_, noprim={S_ + "::Signal"})
        if not r.ok:
            ctx.check(None, "raw write", F, r.why)
        check_raw(ctx, r, F)
        for p in r.returns:
            w, v = walk(r, p)
            if v is None:
                ctx.check(None, "constructor", F, "object not understood")
                continue
            own = {id(e.data["new"]) for e in r.events if e.kind == "append"}
            for st, S, pos, where in w.bases:
                # a block taken as it is: only from another signal
                ctx.check(decide(st, r.eng.is_sorted(S)), "constructor", F, f"takes over {S} without checking its order")
            for st, S, lo, hi, pos, where in w.splices:
                ctx.check(decide(st, r.eng.is_sorted(S)), "constructor", F, f"takes over part of {S} without checking its order")


def producers(ctx, F):
    """Other members that return a new signal: analysed on their own."""
    return {G.qn for G in members(ctx) if "shared_ptr" in G.j["ret"] and G.qn != F.qn}


def check_raw(ctx, r, F):
    eng = r.eng
    for e in r.events:
        if e.kind != "sigwrite":
            continue
        sub, old, val = e.data["sub"], e.data["old"], e.data["val"]
        if isinstance(val, Seq) and isinstance(old, Seq) and not sub and (val.segs, val.over) == (old.segs, old.over):
            continue
        if not sub:
            a = isinstance(val, Seq) and (not val.segs or (len(val.segs) == 1 and val.segs[0][0] == "base" and eng.is_sorted(val.segs[0][1])))
            ctx.check(True if a else (None if not isinstance(val, Seq) else decide(e.st, False)), "raw write", e.where(),
                      "stored samples are replaced without the order check")
            continue
        if sub[-1] == "time" and len(sub) == 2 and isinstance(val, R) and isinstance(old, R):
            off = val - old
            uid = [u for u in e.st.loops]
            moved = [ATOMS[a].key for a in off.atoms()]
            inv = not any(k[0] in ("k", "phi", "elem", "q") for k in moved)
            ctx.check(decide(e.st, inv), "raw write:time", e.where(), f"times are shifted by {off!r}, which differs between samples")
            continue
        if sub[-1] in ("value", "derivative"):
            ctx.check(True, "raw write", e.where(), "keeps the times")
            continue
        ctx.check(None if not isinstance(val, R) else decide(e.st, False), "raw write:time", e.where(), "time overwritten")
    # every element is shifted: one write per element, from the first to the last
    for L, c, ok, why in offset_loops(r):
        ctx.check(ok, "raw write:all", F, why)


def offset_loops(r):
    """Loops that write element times of a signal: (loop, location, ok, why)."""
    eng = r.eng
    f = sig_field(eng)
    out = []
    for L in r.loops.values():
        for c in L.changed:
            if c[1] != (f,):
                continue
            es = [(e, getloc(eng, e.s1, c)) for e in L.edges]
            if not any(isinstance(v, Seq) and any(o[1] == ("time",) for o in v.over) for _, v in es):
                continue
            ok, why = True, ""
            for e, v in es:
                if not isinstance(v, Seq) or len(v.segs) != 1:
                    ok, why = None, "samples not understood"
                    break
                o = [x for x in v.over if x[1] == ("time",)]
                want = ZERO if e.src == "pre" else L.k
                if len(o) != 1 or eqR(e.s1, o[0][0], want) is not True:
                    ok, why = decide(e.s1, False), f"iteration {want!r} shifts {[repr(x[0]) for x in o]}"
                    break
            if ok:
                for src, s, sig, kind in L.exits:
                    v = getloc(eng, s, c)
                    if s.facts.unsat():
                        continue
                    n = eng.seq_len(v)
                    at = ZERO if src == "pre" else L.k
                    if eqR(s, n, at) is not True:
                        ok, why = decide(s, False), f"stops after {at!r} of {n!r} samples"
                        break
            out.append((L, c, ok, why or "shifts every element once"))
    return out


# ---- C07 ------------------------------------------------------------------------------------------
def c07(ctx):
    """After every path of the append operation the slope of the former last sample is compared with
    (v' - v)/(t' - t) as a normal form, and evaluated for every order type of the two values including
    equal infinite ones; the new sample's slope has to be 0 whatever the caller passed. interpolate,
    time_intersect and negation are compared with their defining identities as rational normal forms."""
    for F, r, t, v in pushes(ctx):
        S = ("p", "this")
        n = r.eng.size(S)
        N, LT, LV = atom_of(n), atom_of(elem(S, n - ONE_R, "time")), atom_of(elem(S, n - ONE_R, "value"))
        if len(F.params) == 1:
            sl = fld(r.eng.sym(F.params[0]["t"], ("p", F.params[0]["n"])), "derivative")
        else:
            sl = None
        for p in r.returns:
            seq = this_seq(r, p)
            if not isinstance(seq, Seq) or not seq.segs:
                ctx.check(None, "slope", F, "samples not understood")
                continue
            new = r.eng.seq_get(p.st, seq, r.eng.seq_len(seq) - ONE_R)
            d = fld(new, "derivative")
            ctx.check(decide(p.st, None if d is None else eqR(p.st, d, ZERO)), "slope:last", F, f"the last slope is {d!r}, has to be 0")
            if p.st.facts.entails("==", n):
                continue
            old = r.eng.seq_get(p.st, seq, n - ONE_R)
            d = fld(old, "derivative")
            if d is None:
                ctx.check(None, "slope", F, "slope not understood")
                continue
            spec = (v - elem(S, n - ONE_R, "value")) / (t - elem(S, n - ONE_R, "time"))
            ok = d == spec or eqR(p.st, d, spec) is True or \
                (eqR(p.st, v, elem(S, n - ONE_R, "value")) is True and eqR(p.st, d, ZERO) is True)
            ctx.check(decide(p.st, ok), "slope", F, f"slope is {d!r}, has to be {spec!r}")
            ctx.check(decide(p.st, sl is None or sl.single().n not in d.atoms()), "slope:caller", F, "uses the slope passed in")
        for a, b in itertools.product((-INFV, -2.0, 0.0, 3.0, INFV), repeat=2):
            env = {N: 3.0, LT: 5.0, LV: a, atom_of(t): 7.0, atom_of(v): b, INF.single().n: INFV}
            hit = [p for p in r.returns if consistent(p.st, env) is True]
            ctx.count("order_types")
            if len(hit) != 1:
                ctx.check(None, "slope:values", F, f"no single path for values {a}, {b}")
                continue
            seq = this_seq(r, hit[0])
            d = fld(r.eng.seq_get(hit[0].st, seq, n - ONE_R), "derivative") if isinstance(seq, Seq) else None
            got = None if d is None else safe_eval(d, env)
            want = 0.0 if a == b else (b - a) / 2.0
            ctx.check(None if got is None else exact_all(hit, got == want), "slope:values", F,
                      f"between values {a} and {b} the slope becomes {got}, has to be {want}")
    identities(ctx)


def safe_eval(d, env):
    try:
        return num_eval(d, env)
    except (OverflowError, ZeroDivisionError):
        return None


def identities(ctx):
    fs = ctx.fns(SAMPLE + "::interpolate")
    if not fs:
        ctx.missing("Sample::interpolate")
    for F in fs:
        r = ctx.analyse(F)
        x = r.eng.sym(SAMPLE, ("p", "this"))
        t = r.eng.sym("double", ("p", F.params[0]["n"]))
        for p in r.paths:
            want = line(x, t)
            ctx.check(decide(p.st, None if not p.exc and not isinstance(p.val, R) else (p.exc is None and eqR(p.st, p.val, want))),
                      "interpolate", F, f"gives {p.val!r}, has to be value + slope * (t - time)")
    fs = ctx.fns(SAMPLE + "::time_intersect")
    if not fs:
        ctx.missing("Sample::time_intersect")
    for F in fs:
        r = ctx.analyse(F)
        x, y = r.eng.sym(SAMPLE, ("p", "this")), r.eng.sym(SAMPLE, ("p", F.params[0]["n"]))
        for p in r.returns:
            t = p.val
            if not isinstance(t, R):
                ctx.check(None, "time_intersect", F, "result not understood")
                continue
            par = eqR(p.st, fld(x, "derivative"), fld(y, "derivative"))
            if par is True:
                continue           # parallel lines: no crossing to report
            d = line(x, t) - line(y, t)
            ctx.check(decide(p.st, d == ZERO or p.st.facts.entails("==", d)), "time_intersect", F,
                      f"the two lines differ by {d!r} at the reported time")
    for F in ctx.fns(SIG + "operator-", lambda F: len(F.params) == 1 and SAMPLE in F.params[0]["t"]):
        r = ctx.analyse(F)
        x = r.eng.sym(SAMPLE, ("p", F.params[0]["n"]))
        for p in r.paths:
            v = p.val if not isinstance(p.val, Ref) else r.eng.read(p.st, p.val)
            for k, s in (("time", 1), ("value", -1), ("derivative", -1)):
                g = fld(v, k)
                w = fld(x, k) if s > 0 else -fld(x, k)
                ctx.check(decide(p.st, None if g is None else eqR(p.st, g, w)), "negation", F, f"{k} becomes {g!r}, has to be {w!r}")
    # the same operations through an index
    for name in ("interpolate", "time_intersect"):
        for F in ctx.fns(f"{S_}::{name}"):
            r = ctx.analyse(F)
            idx = next((q for q in F.params if strip_cvref(q["t"]) in INTS), None)
            oth = next((q for q in F.params if q is not idx), None)
            if idx is None or oth is None or not r.ok:
                ctx.check(None, "by index", F, r.why or "parameters")
                continue
            i = r.eng.sym(idx["t"], ("p", idx["n"]))
            x = r.eng.sym_elem(SAMPLE, ("p", "this"), i)
            x = Struct(x.cls, dict(x.f, derivative=elem(("p", "this"), i, "derivative")))
            o = r.eng.sym(oth["t"], ("p", oth["n"]))
            for p in r.paths:
                inside = p.st.facts.entails("<", i - r.eng.size(("p", "this")))
                outside = p.st.facts.entails("<=", r.eng.size(("p", "this")) - i)
                if p.exc:
                    ctx.check(decide(p.st, outside), "by index", F, "throws for an index of the signal")
                    continue
                if not isinstance(p.val, R):
                    ctx.check(None, "by index", F, "result not understood")
                    continue
                if name == "interpolate":
                    ok = eqR(p.st, p.val, line(x, o))
                else:
                    d = line(x, p.val) - line(o, p.val)
                    ok = d == ZERO or p.st.facts.entails("==", d)
                ctx.check(decide(p.st, ok), "by index", F, f"{name} gives {p.val!r}")


# ---- C08 ------------------------------------------------------------------------------------------
def c08(ctx):
    """Every path of the lookups is compared with the definition: a throwing path must exclude begin <= t
    <= end, a returning path must return the stored sample proved to be timed t, or the line of a sample
    proved to be the last before t; NaN is followed through the recorded branch literals. The iterator
    lookups' positions must be proved to be the first at or after s / one past the last at or before t."""
    lookups(ctx)


def lookups(ctx):
    fs = ctx.fns(S_ + "::at", lambda F: strip_cvref(F.params[0]["t"]) in REALS)
    if not fs:
        ctx.missing("Signal::at")
    for F in fs:
        r = ctx.analyse(F, noprim={S_ + "::at"})
        if not r.ok:
            ctx.check(None, "at", F, r.why)
            continue
        S = ("p", "this")
        n = r.eng.size(S)
        t = r.eng.sym("double", ("p", F.params[0]["n"]))
        b, e = elem(S, ZERO, "time"), elem(S, n - ONE_R, "time")
        for p in r.paths:
            inside = [("<=", ONE_R - n), ("<=", b - t), ("<=", t - e)]
            if p.exc:
                f = p.st.facts.copy()
                for c in inside:
                    f.add(*c)
                ctx.check(decide(p.st, f.unsat()), "at:throws", F, "throws for a time inside the signal")
                continue
            for c, what in zip(inside, ("an empty signal", "a time before the signal", "a time after the signal")):
                ctx.check(decide(p.st, p.st.facts.entails(*c)), "at:outside", F, f"returns a sample for {what}")
            v = p.val if not isinstance(p.val, Ref) else r.eng.read(p.st, p.val)
            gt, gv = fld(v, "time"), fld(v, "value")
            if gt is None or gv is None:
                ctx.check(None, "at:sample", F, "result not understood")
                continue
            ctx.check(decide(p.st, eqR(p.st, gt, t)), "at:time", F, f"the sample returned is timed {gt!r}")
            ctx.check(decide(p.st, value_at(r.eng, p.st, S, gv, t)), "at:value", F, f"the value returned is {gv!r}")
        for size_, bb, ee in ((1, 5.0, 5.0), (3, 2.0, 5.0)):
            env = {atom_of(n): float(size_), atom_of(b): bb, atom_of(e): ee, atom_of(t): NANV}
            live = [p for p in r.returns if consistent(p.st, env) is not False]
            ctx.check(exact_all(live, not live), "at:NaN", F, "a NaN time is accepted")
    for name in ("begin_at", "end_at"):
        fs = ctx.fns(f"{S_}::{name}")
        if not fs:
            ctx.missing("Signal::" + name)
        for F in fs:
            r = ctx.analyse(F)
            if not r.ok:
                ctx.check(None, name, F, r.why)
                continue
            S = ("p", "this")
            n = r.eng.size(S)
            t = r.eng.sym("double", ("p", F.params[0]["n"]))
            for p in r.paths:
                if p.exc:
                    ctx.check(decide(p.st, False), name, F, "throws")
                    continue
                v = p.val if not isinstance(p.val, Ref) else r.eng.read(p.st, p.val)
                if not isinstance(v, It) or not isinstance(v.pos, R) or v.rev:
                    ctx.check(None, name, F, "position not understood")
                    continue
                f, q = p.st.facts, v.pos
                before, here = elem(S, q - ONE_R, "time"), elem(S, q, "time")
                lo = f.entails("<=", q) or f.entails("<" if name == "begin_at" else "<=", before - t)
                hi = f.entails("<=", n - q) or f.entails("<=" if name == "begin_at" else "<",
                                                         (t - here))
                rng = f.entails("<=", -q) and f.entails("<=", q - n)
                ctx.check(decide(p.st, rng), name, F, "position outside the signal")
                ctx.check(decide(p.st, lo or open_(p.st, q, n, before, t, name, 0)), name, F, f"a sample {'at or after' if name == 'begin_at' else 'after'} the time lies before position {q!r}")
                ctx.check(decide(p.st, hi), name, F, f"the sample at position {q!r} is {'before' if name == 'begin_at' else 'at or before'} the time")


def open_(st, q, n, before, t, name, d):
    """q == 0, or the sample before is on the right side: by cases on q."""
    f = st.facts.copy()
    f.add("<=", ONE_R - q)
    if f.unsat():
        return True
    return f.entails("<" if name == "begin_at" else "<=", before - t)


def neighbours(st, S, extra=()):
    """Index expressions of S the facts talk about."""
    out = {}
    for rel, r in st.facts.items:
        for a in r.atoms():
            A = ATOMS[a]
            if A.key[0] == "elem" and A.info[0] == S:
                out[IK(A.info[1])] = A.info[1]
    for x in extra:
        for a in x.atoms():
            A = ATOMS[a]
            if A.key[0] == "elem" and A.info[0] == S:
                out[IK(A.info[1])] = A.info[1]
    return list(out.values())


def value_at(eng, st, S, v, t, tS=None):
    """v is the value of signal S at time t: the stored one where a sample is timed t, otherwise
    the interpolation from the last sample before t (S[m].time < t < S[m+1].time)."""
    tS = tS or S
    f = st.facts
    n = f.axctx.size(S) if hasattr(f.axctx, "size") else size(S)
    for m in neighbours(st, S, [v]):
        if not (f.entails("<=", ZERO - m) and f.entails("<", m - n)):
            continue
        tm = elem(tS, m, "time")
        if v == elem(S, m, "value"):
            if f.entails("==", tm - t):
                return True
        x = Struct("", {"time": tm, "value": elem(S, m, "value"), "derivative": elem(S, m, "derivative")})
        if v == line(x, t) or f.entails("==", v - line(x, t)):
            if f.entails("<", tm - t) and f.entails("<", t - elem(tS, m + ONE_R, "time")):
                return True
            if f.entails("==", tm - t):
                return True
    return False


# ---- positions --------------------------------------------------------------------------------------
def witness(st, S):
    out = {IK(ZERO): ZERO}
    n = size(S) if not hasattr(st.facts.axctx, "size") else st.facts.axctx.size(S)
    out[IK(n)] = n
    for m in neighbours(st, S):
        for d in (0, 1):
            k = m + R.c(d)
            out[IK(k)] = k
    return n, list(out.values())


def no_sample_between(st, S, lo, hi, strict=False):
    """No sample of S lies strictly between lo and hi (with strict: nor at lo). lo None: from the start,
    hi None: to the end."""
    f = st.facts
    n, ms = witness(st, S)
    if lo is not None and hi is not None and f.entails("<=", hi - lo):
        return True
    for m in ms:
        a = lo is None and f.entails("<=", m) if lo is None else \
            (f.entails("<=", m) or f.entails("<" if strict else "<=", elem(S, m - ONE_R, "time") - lo))
        if not a:
            continue
        b = f.entails("<=", n - m) or (hi is not None and f.entails("<=", hi - elem(S, m, "time")))
        if b:
            return True
    return False


def before(eng, w, it):
    """Element before item `it` (None at position 0, Top if unknown)."""
    if it.pos == ZERO or it.st.facts.entails("<=", it.pos):
        return None
    if not it.st.facts.entails("<=", ONE_R - it.pos):
        return Top("first or not")
    return eng.seq_get(it.st, it.seq, it.pos - ONE_R)


def same_elem(st, v, S, field, pos):
    """v is field of S[pos]."""
    if not isinstance(v, R):
        return None
    if v == elem(S, pos, field):
        return True
    a = v.single()
    if a is not None and a.key[0] == "elem" and a.info[0] == S and a.key[3] == field:
        return st.facts.entails("==", a.info[1] - pos)
    return field == "time" and st.facts.entails("==", v - elem(S, pos, field))


def name_of(eng, st, v):
    """Name of the input sequence behind a signal argument."""
    s = sigseq(eng, st, v)
    if s is not None and len(s.segs) == 1 and s.segs[0][0] == "base" and not s.over:
        return s.segs[0][1]
    return None


# ---- C10 ------------------------------------------------------------------------------------------
def c10(ctx):
    """For every pair of samples the function emits, on every path and loop edge, it is proved that both
    carry the same time, that this is a sample time of an input, that each carries the value of its own
    input at that time (stored, or the line of the last sample before), that no sample of either input
    lies between two consecutive emitted times, before the first one (from the common begin) or after the
    last one (to the common end), and that both results have the same length."""
    sync_rules(ctx)


SYNC = SIG + "synchronize"


def sync_rules(ctx):
    fs = ctx.fns(SYNC)
    if not fs:
        ctx.missing(SYNC)
    for F in fs:
        r = ctx.analyse(F, noprim={SYNC})
        if not r.ok or r.eng.gaveup:
            ctx.check(None, "sync", F, r.why or "loop without invariant")
        eng = r.eng
        for p in r.throws:
            ctx.check(None if p.exc.args == ("append",) else decide(p.st, False), "sync:throws", F, f"throws {p.exc.ty}")
        done = set()
        for p in r.returns:
            v = p.val if not isinstance(p.val, Ref) else eng.read(p.st, p.val)
            if not isinstance(v, Struct) or len(v.f) != 2:
                ctx.check(None, "sync", F, "result not understood")
                continue
            outs = list(v.f.values())
            st0 = eng.new_state()
            X, Y = (("fld", ("p", q["n"])) for q in F.params[:2])
            X = name_of(eng, p.st, p.st.cells.get(("in", F.params[0]["n"])))
            Y = name_of(eng, p.st, p.st.cells.get(("in", F.params[1]["n"])))
            if X is None or Y is None:
                ctx.check(None, "sync", F, "inputs not understood")
                continue
            seqs = [sigseq(eng, p.st, o) for o in outs]
            if None in seqs:
                ctx.check(None, "sync", F, "result not understood")
                continue
            seqs = [unmk(eng, s) for s in seqs]
            ends(ctx, r, p, F, X, Y, seqs)
            key = tuple(repr(s.segs) for s in seqs)
            if all(s.segs and s.segs[0][0] == "base" and len(s.segs) == 1 for s in seqs):
                if key in done:
                    continue
                done.add(key)
            ws = [Walk(r).seq(p.st, s, F) for s in seqs]
            pairs(ctx, r, F, X, Y, ws)


def unmk(eng, s):
    """Sequence a signal was built from (same times and values)."""
    while len(s.segs) == 1 and s.segs[0][0] == "base" and s.segs[0][1] in eng.mk and not s.over:
        s = eng.mk[s.segs[0][1]][0]
    return s


def ends(ctx, r, p, F, X, Y, seqs):
    eng, st = r.eng, p.st
    lens = [eng.seq_len(s) for s in seqs]
    ctx.check(decide(st, eqR(st, lens[0], lens[1])), "sync:length", F, "the results differ in length")
    nx, ny = eng.size(X), eng.size(Y)
    xb, yb = elem(X, ZERO, "time"), elem(Y, ZERO, "time")
    xe, ye = elem(X, nx - ONE_R, "time"), elem(Y, ny - ONE_R, "time")
    if st.facts.entails("<=", lens[0]):
        f = st.facts.copy()
        for c in (("<=", ONE_R - nx), ("<=", ONE_R - ny), ("<=", xb - ye), ("<=", yb - xe)):
            f.add(*c)
        ctx.check(decide(st, f.unsat()), "sync:empty", F, "no samples although the inputs overlap")
        return
    last = fld(eng.seq_get(st, seqs[0], lens[0] - ONE_R), "time")
    if last is None:
        ctx.check(None, "sync:end", F, "last sample not understood")
        return
    ok = no_sample_between(st, X, last, None) or no_sample_between(st, Y, last, None)
    ok = ok or st.facts.entails("<=", xe - last) or st.facts.entails("<=", ye - last)
    ctx.check(decide(st, ok), "sync:end", F, "stops before the common end")


def pairs(ctx, r, F, X, Y, ws):
    eng = r.eng
    for w in ws:
        for where, why in w.bad:
            ctx.check(None, "sync:items", where, why)
        for st, S, pos, where in w.bases:
            ctx.check(None, "sync:items", where, f"takes over {S}")
        for st, *_, where in w.splices:
            ctx.check(None, "sync:items", where, "takes over a range")
        for st, i, path, val, v, where in w.overs:
            ctx.check(None if path == () else decide(st, path == ("derivative",)), "sync:items", where, f"changes {path} afterwards")
    by = {}
    for k, w in enumerate(ws):
        for it in w.items:
            by.setdefault((id(it.st), IK(norm_pos(it))), [None, None])[k] = it
    for (sid, _), (a, b) in by.items():
        it = a or b
        if a is None or b is None:
            ctx.check(decide(it.st, False), "sync:pairs", it.where, "a sample is added to one of the results only")
            continue
        ctx.check(True, "sync:pairs", it.where, "")
        st = it.st
        ta, tb = fld(a.val, "time"), fld(b.val, "time")
        va, vb = fld(a.val, "value"), fld(b.val, "value")
        if None in (ta, tb, va, vb):
            ctx.check(None, "sync:sample", it.where, "sample not understood")
            continue
        ctx.check(decide(st, eqR(st, ta, tb)), "sync:times", it.where, f"times {ta!r} and {tb!r}")
        own = any(st.facts.entails("==", ta - elem(S, m, "time")) for S in (X, Y) for m in neighbours(st, S, [ta]))
        ctx.check(decide(st, own), "sync:times", it.where, f"{ta!r} is no sample time of an input")
        ctx.check(decide(st, value_at(eng, st, X, va, ta)), "sync:first value", it.where, f"{va!r} at {ta!r}")
        ctx.check(decide(st, value_at(eng, st, Y, vb, ta)), "sync:second value", it.where, f"{vb!r} at {ta!r}")
        pr = before(eng, None, a)
        if isinstance(pr, Top):
            ctx.check(None, "sync:gap", it.where, pr.why)
            continue
        for S, O, nm in ((X, Y, "first"), (Y, X, "second")):
            if pr is None:
                ok = any(no_sample_between(st, S, elem(Z, ZERO, "time"), ta, strict=True) for Z in (X, Y)) \
                    or st.facts.entails("<=", ta - elem(S, ZERO, "time"))
            else:
                tp = fld(pr, "time")
                ok = None if tp is None else no_sample_between(st, S, tp, ta)
            ctx.check(decide(st, ok), "sync:gap", it.where, f"a sample of the {nm} input before {ta!r} is left out")


def norm_pos(it):
    return it.pos if it.pos.const() is not None else R.c(-1 - (len(it.seq.segs) - 1 - it.idx))


# ---- C19 ------------------------------------------------------------------------------------------
def c19(ctx):
    """Resizing (for start <= end): every sample the function adds, on every path and loop edge, is proved
    to lie inside the window and to be a stored sample, the interpolated value at a window end, or the
    fill value at a window end where the signal is not defined; no stored sample lies between two
    consecutive added ones; the first is at start, the last at end. Shifting: every element gets exactly
    dt added once and nothing else; resize_shift is that applied to resize(start, end, fill)."""
    resize_rules(ctx)
    shift_rules(ctx)


def by_role(F, names):
    """Parameters by position."""
    return [q for q in F.params][:len(names)]


def resize_rules(ctx):
    fs = ctx.fns(S_ + "::resize")
    if not fs:
        ctx.missing("Signal::resize")
    for F in fs:
        ps = by_role(F, "abc")
        def prep(eng, st):
            a, b = (eng.sym("double", ("p", q["n"])) for q in ps[:2])
            st.facts.add("<=", a - b)
        r = ctx.analyse(F, prep=prep)
        eng = r.eng
        if not r.ok or eng.gaveup:
            ctx.check(None, "resize", F, r.why or "loop without invariant")
        s, e, fill = (eng.sym("double", ("p", q["n"])) for q in ps)
        S = ("p", "this")
        n = eng.size(S)
        b, z = elem(S, ZERO, "time"), elem(S, n - ONE_R, "time")
        for p in r.throws:
            if p.exc.args == ("append",):
                continue           # C22
            ctx.check(decide(p.st, False), "resize:throws", F, f"throws {p.exc.ty}")
        done = set()
        for p in r.returns:
            w, v = walk(r, p)
            for where, why in w.bad:
                ctx.check(None, "resize", where, why)
            if v is None:
                continue
            v = unmk(eng, v)
            st = p.st
            ln = eng.seq_len(v)
            if st.facts.entails("<=", ln):
                ctx.check(decide(st, False), "resize:window", F, "the result is empty")
                continue
            last = fld(eng.seq_get(st, v, ln - ONE_R), "time")
            ctx.check(decide(st, None if last is None else eqR(st, last, e)), "resize:end", F, f"the last sample is at {last!r}, has to be at {e!r}")
            for st_, S2, pos, where in w.bases:
                ctx.check(None, "resize:items", where, f"takes over {S2}")
            for it in w.items:
                st = it.st
                t, x = fld(it.val, "time"), fld(it.val, "value")
                if (id(st), it.idx) in done:
                    continue
                done.add((id(st), it.idx))
                if t is None or x is None:
                    ctx.check(None, "resize:items", it.where, "sample not understood")
                    continue
                ctx.check(decide(st, st.facts.entails("<=", s - t) and st.facts.entails("<=", t - e)), "resize:window", it.where, f"a sample at {t!r} lies outside")
                edge = eqR(st, t, s) is True or eqR(st, t, e) is True
                undef = undefined_at(st, n, b, z, t)
                ok = value_at(eng, st, S, x, t) or (x == fill and edge and undef)
                ctx.check(decide(st, ok), "resize:value", it.where, f"value {x!r} at {t!r}")
                own = edge or any(st.facts.entails("==", t - elem(S, m, "time")) for m in neighbours(st, S, [t]))
                ctx.check(decide(st, own), "resize:times", it.where, f"{t!r} is neither a sample time nor a window end")
                pr = before(eng, w, it)
                if isinstance(pr, Top):
                    ctx.check(None, "resize:gap", it.where, pr.why)
                elif pr is None:
                    ctx.check(decide(st, eqR(st, t, s)), "resize:start", it.where, f"the first sample is at {t!r}, has to be at {s!r}")
                else:
                    tp = fld(pr, "time")
                    ok = None if tp is None else no_sample_between(st, S, tp, t)
                    ctx.check(decide(st, ok), "resize:gap", it.where, f"a sample before {t!r} is dropped")


def undefined_at(st, n, b, z, t):
    f = st.facts.copy()
    for c in (("<=", ONE_R - n), ("<=", b - t), ("<=", t - z)):
        f.add(*c)
    return f.unsat()


def shift_rules(ctx):
    fs = ctx.fns(S_ + "::shift") + ctx.fns(S_ + "::resize_shift")
    for q in ("::shift", "::resize_shift"):
        if not ctx.fns(S_ + q):
            ctx.missing("Signal" + q)
    for F in fs:
        key = F.qn.split("::")[-1]
        r = ctx.analyse(F, noinline=producers(ctx, F))
        eng = r.eng
        if not r.ok or eng.gaveup:
            ctx.check(None, key, F, r.why or "loop without invariant")
        dt = eng.sym("double", ("p", F.params[-1]["n"]))
        for p in r.throws:
            ctx.check(None if p.exc.args == ("append",) else decide(p.st, False), key + ":throws", F, f"throws {p.exc.ty}")
        args = tuple(("p", q["n"]) for q in F.params[:-1])
        for p in r.returns:
            check_shift(ctx, r, p, F, key, dt, args)


def origin(eng, st, S):
    """What a base sequence is: 'this' or the result of a call (name, receiver, arguments)."""
    if S in eng.mk:
        s = unmk(eng, Seq([("base", S)], SAMPLE))
        if len(s.segs) == 1 and s.segs[0][0] == "base" and not s.over:
            return origin(eng, st, s.segs[0][1])
        return None
    if S == ("p", "this"):
        return ("this",)
    if isinstance(S, tuple) and S and S[0] == "rec":
        return ("call",) + S[1:]
    if isinstance(S, tuple) and len(S) == 2 and S[0] == "p":
        return ("param", S[1])
    return None


def is_this(x):
    return x == ("p", "this") or (isinstance(x, tuple) and len(x) == 3 and x[0] == "st" and x[1] == S_) or \
        (isinstance(x, tuple) and x[:1] == ("this",))


def check_shift(ctx, r, p, F, key, dt, args):
    eng, st = r.eng, p.st
    v = sigseq(eng, st, p.val)
    if v is None:
        ctx.check(None, key, F, "result not understood")
        return
    u = unmk(eng, v)
    if len(u.segs) == 1 and u.segs[0][0] == "base" and u.over and origin(eng, st, u.segs[0][1]) is not None:
        # a signal of a known length, changed element by element
        src(ctx, r, st, F, key, Seq(u.segs, u.et), args)
        plain = Seq(u.segs, u.et)
        for i, path, val in u.over:
            if path == ("time",) and isinstance(val, R):
                o = fld(eng.seq_get(st, plain, i), "time")
                ctx.check(decide(st, val - o == dt), key + ":amount", F, f"adds {val - o!r}, has to add {dt!r}")
            elif path != ("derivative",):
                ctx.check(decide(st, False) if path else None, key + ":only time", F, f"changes {path}")
        n = len({i.const() for i, path, _ in u.over if path == ("time",)})
        ctx.check(decide(st, eqR(st, eng.seq_len(u), R.c(n))), key + ":all", F, "not every sample is shifted")
        return
    if u.segs and all(s[0] == "item" for s in u.segs):
        rebuilt(ctx, r, p, F, key, dt, args, Walk(r).seq(st, u, F), u)
        return
    if len(u.segs) == 1 and u.segs[0][0] == "base" and isinstance(u.segs[0][1], tuple) and u.segs[0][1][0] == "phi":
        v = u
    if len(v.segs) == 1 and v.segs[0][0] == "base" and not v.over:
        S = v.segs[0][1]
        if isinstance(S, tuple) and S[0] == "phi":
            for L, c, ok, why in offset_loops(r):
                if (L.uid, c) != (S[1], S[3]):
                    continue
                ctx.check(ok, key + ":all", F, why)
                for e in L.edges:
                    w = getloc(eng, e.s1, c)
                    w0 = getloc(eng, e.s0, c)
                    for i, path, val in (w.over if isinstance(w, Seq) else ()):
                        if path != ("time",):
                            ctx.check(decide(e.s1, False), key + ":only time", F, f"changes {path}")
                            continue
                        o = fld(eng.seq_get(e.s0, w0, i), "time") if isinstance(w0, Seq) else None
                        good = None if o is None or not isinstance(val, R) else (val - o == dt)
                        ctx.check(decide(e.s1, good), key + ":amount", F, f"adds {None if o is None else val - o!r}, has to add {dt!r}")
                w0 = getloc(eng, L.pre, c)
                src(ctx, r, L.pre, F, key, w0, args)
                return
            # built sample by sample
            w = Walk(r).seq(st, v, F)
            rebuilt(ctx, r, p, F, key, dt, args, w, v)
            return
        o = origin(eng, st, S)
        if o and o[0] == "call":
            if args and o[1] == S_ + "::resize":
                ok = tuple(o[3:]) == args and is_this(o[2])
                ctx.check(decide(st, ok), key + ":source", F, f"shifts resize{o[3:]}")
                ctx.check(decide(st, st.facts.entails("<=", eng.seq_len(v))), key + ":all", F, "the resized samples are not shifted")
                return
            called(ctx, eng, st, F, key, o, dt, args)
            return
        if S in eng.mk:
            v2 = unmk(eng, v)
            if len(v2.segs) == 1 and v2.segs[0][0] == "base" and isinstance(v2.segs[0][1], tuple) and v2.segs[0][1][0] == "phi":
                w = Walk(r).seq(st, v2, F)
                if w.items:
                    rebuilt(ctx, r, p, F, key, dt, args, w, v2)
                    return
        # unchanged content: right only without samples
        n = eng.seq_len(v)
        ctx.check(decide(st, st.facts.entails("<=", n)), key + ":all", F, "the samples are not shifted")
        return
    if not v.segs:
        ctx.check(decide(st, True if args else st.facts.entails("<=", eng.size(("p", "this")))), key + ":all", F, "samples are lost")
        return
    ctx.check(None, key, F, "result not understood")


def src(ctx, r, st, F, key, w0, args):
    eng = r.eng
    w0 = unmk(eng, w0) if isinstance(w0, Seq) else None
    if w0 is None or len(w0.segs) != 1 or w0.segs[0][0] != "base":
        ctx.check(None, key + ":source", F, "shifted samples not understood")
        return
    o = origin(eng, st, w0.segs[0][1])
    if not args:
        ctx.check(None if o is None else decide(st, o == ("this",)), key + ":source", F, f"shifts {o}")
        return
    if o is None or o[0] != "call":
        ctx.check(None if o is None else decide(st, False), key + ":source", F, "does not shift the resized signal")
        return
    ok = o[1] == S_ + "::resize" and tuple(o[3:]) == args and is_this(o[2])
    ctx.check(decide(st, ok), key + ":source", F, f"shifts {o[1].split('::')[-1]}{o[3:]}")


def called(ctx, eng, st, F, key, o, dt, args):
    """The result of another member, e.g. resize(...)->shift(dt)."""
    d = dt.single().key
    if o[1] == S_ + "::shift" and o[3:] == (d,):
        inner = o[2]
        if args:
            ok = isinstance(inner, tuple) and len(inner) > 2 and inner[0] == "rec" and inner[1] == S_ + "::resize" and tuple(inner[3:]) == args and is_this(inner[2])
            ctx.check(None if not (isinstance(inner, tuple) and inner[:1] == ("rec",)) else decide(st, ok), key + ":source", F, f"shifts {inner!r}"[:200])
        else:
            ctx.check(decide(st, is_this(inner)), key + ":source", F, "shifts something else")
        return
    ctx.check(None, key, F, "result not understood")


def rebuilt(ctx, r, p, F, key, dt, args, w, v):
    """Shift written as building the samples anew."""
    eng = r.eng
    srcs = {a.info[0] for it in w.items for k in ("time", "value") for x in [fld(it.val, k)] if x is not None
            for a in [ATOMS[y] for y in x.atoms()] if a.key[0] == "elem" and not (a.info[0][:1] == ("phi",))}
    if len(srcs) != 1:
        ctx.check(None, key, F, "source of the samples not understood")
        return
    S = srcs.pop()
    src(ctx, r, p.st, F, key, Seq([("base", S)], SAMPLE), args)
    for it in w.items:
        t, x = fld(it.val, "time"), fld(it.val, "value")
        ok = None if t is None or x is None else \
            same_elem(it.st, t - dt, S, "time", it.pos) and same_elem(it.st, x, S, "value", it.pos)
        ctx.check(decide(it.st, ok), key + ":amount", it.where, f"sample {it.pos!r} becomes ({t!r}, {x!r})")
    ctx.check(decide(p.st, eqR(p.st, eng.seq_len(v), eng.size(S))), key + ":all", F, "not every sample is kept")


# ---- C20 ------------------------------------------------------------------------------------------
def short_type(t):
    n, args = ptype(t)
    return n.split("::")[-1] + ("<" + short_type(args[0]) + ">" if args else "")


def c20(ctx):
    """Every constructor is abstractly interpreted: the element added at position i, for an arbitrary i,
    has to carry the i-th given time and value, and the constructed signal has as many samples as were
    given; two lists are rejected exactly when their lengths differ."""
    fs = members(ctx, ctor=True)
    if not [F for F in fs if F.params]:
        ctx.missing("Signal constructors")
    for F in fs:
        r = ctx.construct(F, S_, noprim={S_ + "::Signal"})
        eng = r.eng
        key = "Signal(" + ", ".join(short_type(q["t"]) for q in F.params) + ")"
        if not r.ok or eng.gaveup:
            ctx.check(None, key, F, r.why or "loop without invariant")
            continue
        st0 = eng.new_state()
        srcs = {}
        lists = [q for q in F.params if ptype(q["t"])[0] in ("std::vector", "std::deque") and ptype(q["t"])[1][0] in REALS]
        if len(lists) == 2:
            V, T = (("p", q["n"]) for q in lists)
            N = eng.size(T)
        elif len(F.params) == 1:
            v0 = eng.sym(F.params[0]["t"], ("p", F.params[0]["n"]))
            s0 = v0 if isinstance(v0, Seq) else sigseq(eng, st0, v0)
            if s0 is None:
                ctx.check(None, key, F, "argument not understood")
                continue
            V = T = s0.segs[0][1]
            N = eng.size(T)
        elif not F.params:
            for p in r.paths:
                v = sigseq(eng, p.st, p.val) if not p.exc else None
                ctx.check(decide(p.st, None if v is None else not v.segs), key, F, "a default signal has samples")
            continue
        else:
            ctx.check(None, key, F, "arguments not understood")
            continue
        two = len(lists) == 2
        fs_ = ("", "") if two else ("time", "value")
        for p in r.throws:
            if two and not p.exc.args == ("append",):
                ctx.check(decide(p.st, p.st.facts.entails("!=", eng.size(V) - eng.size(T))), key + ":lengths", F, "lists of equal length are rejected")
            elif p.exc.args != ("append",):
                ctx.check(decide(p.st, False), key + ":throws", F, f"throws {p.exc.ty}")
            elif eng.is_sorted(T):
                ctx.check(decide(p.st, False), key + ":throws", F, "copying a signal can fail")
        for p in r.returns:
            st = p.st
            if two:
                ctx.check(decide(st, eqR(st, eng.size(V), eng.size(T))), key + ":lengths", F, "lists of different lengths are accepted")
            v = sigseq(eng, st, p.val)
            if v is None:
                ctx.check(None, key, F, "object not understood")
                continue
            if len(v.segs) == 1 and v.segs[0] == ("base", T) and not v.over and not two:
                ctx.check(True, key, F, "takes the samples as they are")
                continue
            w = Walk(r).seq(st, v, F)
            for where, why in w.bad:
                ctx.check(None, key, where, why)
            for b in w.bases + w.splices:
                ctx.check(None, key, b[-1], "takes over a range")
            for _, i, path, val, sv, where in w.overs:
                ctx.check(None if path != ("derivative",) else True, key + ":overwrite", where, f"{path} is overwritten")
            for it in w.items:
                t, x = fld(it.val, "time"), fld(it.val, "value")
                ok = None if t is None or x is None else same_elem(it.st, t, T, fs_[0], it.pos) and same_elem(it.st, x, V, fs_[1], it.pos)
                ctx.check(decide(it.st, ok), key + ":sample", it.where, f"position {it.pos!r} gets ({t!r}, {x!r})")
            ctx.check(decide(st, eqR(st, eng.seq_len(v), N)), key + ":count", F, f"{eng.seq_len(v)!r} samples for {N!r} given")


# ---- C21 ------------------------------------------------------------------------------------------
def c21(ctx):
    """Over the edges of the loop that visits the samples one by one (checked: every sample exactly once):
    an added sample is the visited one; an iteration that adds nothing must have proved that the visited
    sample lies on the line of the last kept one with the same slope. First and last sample of the
    result are proved to be those of the signal."""
    fs = ctx.fns(S_ + "::simplify")
    if not fs:
        ctx.missing("Signal::simplify")
    S = ("p", "this")
    for F in fs:
        r = ctx.analyse(F)
        eng = r.eng
        if not r.ok or eng.gaveup:
            ctx.check(None, "simplify", F, r.why or "loop without invariant")
            continue
        n = eng.size(S)
        for p in r.throws:
            ctx.check(None if p.exc.args == ("append",) else decide(p.st, False), "simplify:throws", F, f"throws {p.exc.ty}")
        for p in r.returns:
            st = p.st
            w, v = walk(r, p)
            for where, why in w.bad:
                ctx.check(None, "simplify", where, why)
            if v is None:
                continue
            if any(S2 == S for _, S2, *_ in w.bases) and not w.items:
                ctx.check(True, "simplify:last", F, "keeps everything")
                continue
            v = unmk(eng, v)
            ln = eng.seq_len(v)
            if st.facts.entails("<=", ln):
                ctx.check(decide(st, st.facts.entails("<=", n)), "simplify:last", F, "loses all samples")
                continue
            last = eng.seq_get(st, v, ln - ONE_R)
            ctx.check(decide(st, eqR(st, fld(last, "time"), elem(S, n - ONE_R, "time"))), "simplify:last", F, "the last sample is not kept")
            for it in w.items:
                t, x = fld(it.val, "time"), fld(it.val, "value")
                if t is None or x is None:
                    ctx.check(None, "simplify:sample", it.where, "sample not understood")
                    continue
                ok = any(st_eq(it.st, t, elem(S, m, "time")) and x == elem(S, m, "value") for m in neighbours(it.st, S, [t, x]))
                ctx.check(decide(it.st, ok), "simplify:sample", it.where, f"keeps ({t!r}, {x!r}), which is no sample of the signal")
                pr = before(eng, w, it)
                if pr is None:
                    ctx.check(decide(it.st, eqR(it.st, t, elem(S, ZERO, "time"))), "simplify:first", it.where, f"the first sample kept is at {t!r}")
        if loops.UNROLL:
            for p in r.returns:
                drops_flat(ctx, r, p, F, S, n)
        else:
            drops(ctx, r, F, S, n)


def drops_flat(ctx, r, p, F, S, n):
    """The same on a signal of known length: every sample that is left out lies on the line of the one kept before it."""
    eng, st = r.eng, p.st
    v = sigseq(eng, st, p.val)
    v = None if v is None else unmk(eng, v)
    size = next((c for c in range(8) if st.facts.entails("==", n - R.c(c))), None)
    if v is None or size is None or v.over or any(s[0] != "item" for s in v.segs):
        ctx.check(None, "simplify:drop", F, "samples not understood")
        return
    kept = [fld(s[1], "time") for s in v.segs]
    last = None
    for k in range(size):
        t, x, d = (elem(S, R.c(k), q) for q in ("time", "value", "derivative"))
        if any(st_eq(st, y, t) for y in kept):
            last = k
            continue
        if last is None:
            ctx.check(decide(st, False), "simplify:drop", F, "drops the first sample")
            return
        lt, lv, ld = (elem(S, R.c(last), q) for q in ("time", "value", "derivative"))
        dl = eng.sym_elem(SAMPLE, S, R.c(k)).f["derivative"]
        ok = st_eq(st, lv + ld * (t - lt), x) and (st_eq(st, ld, d) or st_eq(st, ld, dl))
        ctx.check(decide(st, ok), "simplify:drop", F, f"drops the sample at {t!r} although the signal may turn there")


def st_eq(st, a, b):
    return a == b or st.facts.entails("==", a - b)


def cursor(r, L, S, n):
    """Offset d such that iteration number j visits S[j + d], for a loop that visits the samples in order
    until the end; None if it is no such loop."""
    eng = r.eng
    ds = set()
    for src_, s, sig, kind in L.exits:
        if kind != "cond" or s.facts.unsat():
            continue
        at = ZERO if src_ == "pre" else L.k
        hit = [d for d in (0, 1) if s.facts.entails("<=", n - at - R.c(d))]
        if not hit:
            return None
        ds.add(hit[0])
    return max(ds) if ds else None


def drops(ctx, r, F, S, n):
    eng = r.eng
    f = sig_field(eng)
    for L in r.loops.values():
        cs = [c for c in L.changed if isinstance(getloc(eng, L.edges[0].s1, c), Seq)] if L.edges else []
        if not cs or not L.edges:
            continue
        d = cursor(r, L, S, n)
        if d is None:
            ctx.check(None, "simplify:drop", F, "the loop does not visit sample by sample")
            continue
        for e in L.edges:
            c = cs[0]
            old, new = getloc(eng, e.s0, c), getloc(eng, e.s1, c)
            if not isinstance(new, Seq) or not isinstance(old, Seq):
                ctx.check(None, "simplify:drop", F, "samples not understood")
                continue
            st = e.s1
            k = (ZERO if e.src == "pre" else L.k) + R.c(d)
            t, v, der = (elem(S, k, q) for q in ("time", "value", "derivative"))
            dl = eng.sym_elem(SAMPLE, S, k).f["derivative"]
            added = new.segs[len(old.segs):]
            if added:
                x = added[-1][1]
                ok = st_eq(st, fld(x, "time"), t)
                ctx.check(decide(st, ok), "simplify:order", F, f"iteration for {t!r} keeps {x!r}"[:200])
                continue
            ln = eng.seq_len(old)
            if st.facts.entails("<=", ln):
                ctx.check(decide(st, False), "simplify:drop", F, "drops the first sample")
                continue
            last = eng.seq_get(st, old, ln - ONE_R)
            cands = [(fld(last, "time"), fld(last, "value"), fld(last, "derivative"))]
            for m in neighbours(st, S):
                if st.facts.entails("==", elem(S, m, "time") - fld(last, "time")):
                    cands.append(tuple(elem(S, m, q) for q in ("time", "value", "derivative")))
            ok = False
            for lt, lv, ld in cands:
                on = lv + ld * (t - lt)
                for q in (der, dl):
                    if st_eq(st, on, v) and st_eq(st, ld, q):
                        ok = True
            ctx.check(decide(st, ok), "simplify:drop", F, f"drops the sample at {t!r} although the signal may turn there")
