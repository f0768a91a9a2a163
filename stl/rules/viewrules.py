"""C30: what samples and signals answer when they are asked - comparisons, areas, ends, sizes, elements, text."""
import itertools
from terms import *
from values import *
from rules.common import *
from rules.seqs import *
from rules.fmtrules import exact_spec, pieces_of, closed
from rules.sigrules import S_, SIG, SAMPLE, atom_of, INTS

THIS = ("p", "this")


def value(r, p):
    return r.eng.read(p.st, p.val) if isinstance(p.val, Ref) else p.val


def usable(ctx, r, F, key):
    if not r.ok or r.eng.gaveup or not r.paths:
        ctx.check(None, key, F, r.why or "not understood")
        return False
    return True


def c30(ctx):
    """Every path of the accessors of samples and signals is compared with the element, position, count or normal form
    asked for; sample comparisons are decided for every order type of times, values and slopes; the templates of the
    formatters of samples and signals have to show every time and value, in order, with a format that loses nothing."""
    comparisons(ctx)
    areas(ctx)
    for name, at in (("begin_time", lambda n: ZERO), ("end_time", lambda n: n - ONE_R)):
        for F in found(ctx, name):
            r = ctx.analyse(F)
            if not usable(ctx, r, F, name):
                continue
            n = r.eng.size(THIS)
            for p in r.paths:
                v = value(r, p)
                if p.exc:
                    ctx.check(decide(p.st, False), name, F, f"throws {p.exc.ty}")
                elif not isinstance(v, R):
                    ctx.check(None, name, F, "result not understood")
                elif p.st.facts.entails("<=", n):
                    ctx.check(decide(p.st, eqR(p.st, v, ZERO)), name, F, f"gives {v!r} for an empty signal, has to be 0")
                elif p.st.facts.entails("<=", ONE_R - n):
                    want = elem(THIS, at(n), "time")
                    ctx.check(decide(p.st, same(p.st, v, want, n, name)), name, F, f"gives {v!r}, has to be {want!r}")
                else:
                    # both the empty and the other signals come this way
                    ctx.check(decide(p.st, False), name, F, f"gives {v!r} for empty and for other signals")
    for name, at in (("front", lambda n: ZERO), ("back", lambda n: n - ONE_R), ("at_idx", None)):
        for F in found(ctx, name):
            r = ctx.analyse(F)
            if not usable(ctx, r, F, name):
                continue
            n = r.eng.size(THIS)
            if at is None:
                if len(F.params) != 1 or strip_cvref(F.params[0]["t"]) not in INTS:
                    ctx.check(None, name, F, "parameters")
                    continue
                i = r.eng.sym(F.params[0]["t"], ("p", F.params[0]["n"]))
            for p in r.paths:
                pos = i if at is None else at(n)
                if p.st.facts.entails("<=", n - pos) or (at is not None and p.st.facts.entails("<=", n)):
                    continue          # there is no such sample
                if p.exc:
                    ctx.check(decide(p.st, False), name, F, f"throws {p.exc.ty} although there is such a sample")
                    continue
                sample(ctx, name, F, r, p, value(r, p), pos)
    for name, at, rev in (("begin", lambda n: ZERO, False), ("end", lambda n: n, False),
                          ("rbegin", lambda n: n - ONE_R, True), ("rend", lambda n: -ONE_R, True)):
        for F in found(ctx, name):
            r = ctx.analyse(F)
            if not usable(ctx, r, F, name):
                continue
            n = r.eng.size(THIS)
            for p in r.paths:
                v = value(r, p)
                if p.exc or not isinstance(v, It) or whole(r, p, v) is not True:
                    ctx.check(decide(p.st, False) if p.exc else None, name, F, f"throws {p.exc.ty}" if p.exc else "result not understood")
                    continue
                ok = v.rev == rev and eqR(p.st, v.pos, at(n))
                ctx.check(decide(p.st, ok), name, F, f"points at {v.pos!r}{' backwards' if v.rev else ''}, has to be {at(n)!r}{' backwards' if rev else ''}")
    for F in found(ctx, "size"):
        r = ctx.analyse(F)
        if usable(ctx, r, F, "size"):
            for p in r.paths:
                v = value(r, p)
                ctx.check(None if not isinstance(v, R) else decide(p.st, eqR(p.st, v, r.eng.size(THIS))), "size", F, f"gives {v!r}")
    for F in found(ctx, "empty"):
        r = ctx.analyse(F)
        if usable(ctx, r, F, "empty"):
            n = r.eng.size(THIS)
            for p in r.paths:
                v = value(r, p)
                f = p.st.facts
                if not isinstance(v, bool):
                    ctx.check(None, "empty", F, "result not understood")
                    continue
                ok = f.entails("<=", n) if v else f.entails("<=", ONE_R - n)
                ctx.check(decide(p.st, ok), "empty", F, f"gives {v} on a path that other signals take, too")
    printing(ctx)


def found(ctx, name):
    fs = ctx.fns(f"{S_}::{name}")
    if not fs:
        ctx.missing(f"Signal::{name}")
    return fs


def same(st, v, want, n, name):
    """The first and the last sample are the same one in a signal of one sample."""
    if eqR(st, v, want) is True:
        return True
    if st.facts.entails("==", n - ONE_R):
        return eqR(st, v, elem(THIS, ZERO, "time")) is True or eqR(st, v, elem(THIS, n - ONE_R, "time")) is True
    return False


def whole(r, p, it):
    """Does the iterator run over the samples of this signal?"""
    c = r.eng.read(p.st, it.ref)
    if isinstance(c, Seq) and len(c.segs) == 1 and c.segs[0] == ("base", THIS) and not c.over:
        return True
    return None


def sample(ctx, key, F, r, p, v, pos):
    for k in ("time", "value"):
        g = fld(v, k)
        want = elem(THIS, pos, k)
        ok = None if not isinstance(g, R) else eqR(p.st, g, want) is True or g == want
        ctx.check(decide(p.st, ok) if ok is not None else None, key, F, f"its {k} is {g!r}, has to be {want!r}")


# ---- samples ------------------------------------------------------------------------------------
WANT = {"operator<": lambda a, b: a < b, "operator>": lambda a, b: a > b, "operator<=": lambda a, b: a <= b, "operator>=": lambda a, b: a >= b}


def comparisons(ctx):
    for op, want in WANT.items():
        fs = ctx.fns(SIG + op, lambda F: len(F.params) == 2 and all(strip_cvref(q["t"]) == SAMPLE for q in F.params))
        if not fs:
            ctx.missing(f"{op} of samples")
        for F in fs:
            r = ctx.analyse(F)
            if not usable(ctx, r, F, op):
                continue
            x, y = (r.eng.sym(SAMPLE, ("p", q["n"])) for q in F.params)
            atoms = [(atom_of(fld(x, k)), atom_of(fld(y, k))) for k in ("value", "time", "derivative")]
            if any(a is None or b is None for a, b in atoms):
                ctx.check(None, op, F, "parameters")
                continue
            for p in r.paths:
                v = value(r, p)
                if p.exc or not isinstance(v, bool):
                    continue
                a, b = (x, y) if op in ("operator<", "operator<=") else (y, x)
                d = fld(a, "value") - fld(b, "value")
                rel, e = ("<", d) if op in ("operator<", "operator>") else ("<=", d)
                if not v:
                    rel, e = ("<=" if rel == "<" else "<"), -d
                ctx.check(decide(p.st, p.st.facts.entails(rel, e)), op + ":exact", F, f"gives {v} although {e!r} {rel} 0 need not hold")
            for combo in itertools.product(((1.0, 2.0), (2.0, 1.0), (2.0, 2.0)), repeat=3):
                env = {}
                for (a, b), (u, v) in zip(atoms, combo):
                    env[a], env[b] = u, v
                ctx.count("order_types")
                hit = [p for p in r.paths if consistent(p.st, env) is not False]
                if len(hit) != 1 or consistent(hit[0].st, env) is not True or not isinstance(value(r, hit[0]), bool):
                    ctx.check(None, op, F, "result not understood")
                    continue
                p = hit[0]
                w = want(*combo[0])
                ctx.check(decide(p.st, p.exc is None and value(r, p) == w), op, F,
                          f"values {combo[0]}, times {combo[1]}: gives {value(r, p)}, has to be {w}")


def areas(ctx):
    fs = ctx.fns(SAMPLE + "::area")
    if not fs:
        ctx.missing("Sample::area")
    for F in fs:
        r = ctx.analyse(F)
        if usable(ctx, r, F, "area"):
            area(ctx, F, r, r.eng.sym(SAMPLE, THIS), r.eng.sym("double", ("p", F.params[0]["n"])), None)
    for F in ctx.fns(f"{S_}::area"):
        r = ctx.analyse(F)
        idx = next((q for q in F.params if strip_cvref(q["t"]) in INTS), None)
        oth = next((q for q in F.params if q is not idx), None)
        if idx is None or oth is None or not usable(ctx, r, F, "area:by index"):
            if idx is None or oth is None:
                ctx.check(None, "area:by index", F, "parameters")
            continue
        i = r.eng.sym(idx["t"], ("p", idx["n"]))
        x = Struct(SAMPLE, {k: elem(THIS, i, k) for k in ("time", "value", "derivative")})
        area(ctx, F, r, x, r.eng.sym(oth["t"], ("p", oth["n"])), i)


def area(ctx, F, r, x, t, i):
    key = "area" if i is None else "area:by index"
    for p in r.paths:
        f = p.st.facts
        if i is not None and f.entails("<=", r.eng.size(THIS) - i):
            continue
        if p.exc:
            ctx.check(decide(p.st, False), key, F, f"throws {p.exc.ty}")
            continue
        v = value(r, p)
        if not isinstance(v, R):
            ctx.check(None, key, F, "result not understood")
            continue
        dt = t - fld(x, "time")
        full = fld(x, "value") * dt + fld(x, "derivative") * dt * dt / R.c(2)
        after, upto = f.entails("<=", -dt), f.entails("<=", dt)
        is_full, is_zero = v == full or eqR(p.st, v, full) is True, v == ZERO or eqR(p.st, v, ZERO) is True
        ok = is_full and after or is_zero and upto or is_full and is_zero
        want = full if not upto else ZERO
        ctx.check(decide(p.st, ok), key, F, f"gives {v!r}" + (f", has to be {want!r}" if after or upto else " before and after the time of the sample"))


# ---- text -----------------------------------------------------------------------------------------
def printing(ctx):
    for T in ("Sample", "Signal"):
        fs = ctx.fns(f"fmt::formatter<{SIG}{T}>::format")
        if not fs:
            ctx.missing(f"formatter of {T}")
        for F in fs:
            r = ctx.analyse(F)
            if not usable(ctx, r, F, f"print {T}"):
                continue
            for p in r.paths:
                if p.exc:
                    ctx.check(decide(p.st, False), f"print {T}", F, f"throws {p.exc.ty}")
                    continue
                (text_sample if T == "Sample" else text_signal)(ctx, F, r, p)


def text_sample(ctx, F, r, p):
    x = r.eng.sym(SAMPLE, ("p", F.params[0]["n"]))
    names = {IK(fld(x, k)): k for k in ("time", "value", "derivative")}
    got, bad, unk, gap = [], [], [], True
    for q in pieces_of(p.st):
        if q[0] == "lit":
            gap = gap or bool(q[1])
            continue
        if q[0] != "num":
            unk.append(f"prints {q[0]}")
            continue
        k = names.get(q[1])
        if k is None:
            (bad if closed(q[1]) else unk).append(f"prints {q[1]!r}")
        ex = exact_spec("num", q[2], q[3])
        if ex is False:
            bad.append(f"{k} is printed with '{{:{q[2]}}}', which rounds it")
        elif ex is None:
            unk.append(f"format specification {q[2]}")
        if not gap:
            bad.append("two numbers run together")
        gap = False
        got.append(k)
    shown = [k for k in got if k in ("time", "value")]
    if not unk and shown != ["time", "value"]:
        bad.append(f"shows {shown}, has to show the time and the value")
    ctx.check(None if unk else decide(p.st, not bad), "print Sample", F, "; ".join(bad or unk) or "shows the time and the value")


def text_signal(ctx, F, r, p):
    S = ("p", F.params[0]["n"])
    bad, unk, seen = [], [], 0
    for q in pieces_of(p.st):
        if q[0] == "lit":
            continue
        if q[0] != "join":
            unk.append(f"prints {q[0]}")
            continue
        if tuple(q[1]) == (("base", S),):
            seen += 1
        else:
            (bad if closed(q[1]) else unk).append("prints something else than all the samples in order")
        if q[2][0] != "lit":
            unk.append("separator not understood")
        elif not q[2][1]:
            bad.append("samples run together")
        if q[3]:
            unk.append(f"format specification {q[3]}")
    n = r.eng.size(S)
    if not unk and not bad and seen != 1 and not (seen == 0 and p.st.facts.entails("<=", n)):
        bad.append(f"shows the samples {seen} times")
    ctx.check(None if unk else decide(p.st, not bad), "print Signal", F, "; ".join(bad or unk) or "shows every sample in order")
