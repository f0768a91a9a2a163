"""Well-definedness of every operation: ordered appends (C22) and accesses inside the sequences (C09)."""
from rules.common import *
from rules.seqs import *
from rules import robrules as rr
from rules import sigrules as sg
from engine import Engine

from rules.winrules import WEDGE

S_ = SIG + "Signal"


def runs(ctx):
    """(name, function, result) of every function that builds or reads signals, analysed under the
    preconditions its callers have to establish."""
    seen = set()
    for F in sg.members(ctx):
        name = F.qn.split("::")[-1]
        if name == "push_back":
            continue

        def prep(eng, st, F=F, name=name):
            if name == "resize":
                a, b = (eng.sym("double", ("p", q["n"])) for q in sg.by_role(F, "abc")[:2])
                st.facts.add("<", a - b)
        own = {F.key}
        yield name, F, ctx.analyse(F, prep=prep, noprim={F.qn}, noinline=sg.producers(ctx, F) if name == "resize_shift" else ())
    for F in ctx.fns(sg.SYNC):
        yield "synchronize", F, ctx.analyse(F, noprim={sg.SYNC})
    D = rr.Dispatch(ctx)
    C = D.C
    for F in C.funs:
        C.verify(F)
    for (key, sync), r in C.runs.items():
        yield r.F.qn.split("::")[-1], r.F, r
    if D.F is None:
        ctx.missing(rr.ROOT)
        return
    for k in D.kinds:
        yield "robustness of " + k, D.F, D.run(k)


def c22(ctx):
    """Every append in the operations that build signals is proved to come after the last sample of the signal
    it extends, and every sequence of samples handed to the signal constructor to be strictly increasing, on
    every path and in every iteration (inferred loop invariants)."""
    C = rr.Contracts(ctx)
    for name, F, r in runs(ctx):
        if not r.ok or r.eng.gaveup:
            ctx.check(None, name, F, r.why or "loop without invariant")
        done = set()
        for e in r.events:
            if e.kind == "append":
                ok = e.data["ok"]
                if ok is False and name == "robustness of Const":
                    ok = spanned(ctx, r, e)
                new = e.data["new"]
                ctx.check(decide(e.st, ok), f"{name}:order", e.where(), f"appends the sample at {new.f.get('time') if isinstance(new, Struct) else new!r}"[:200])
            elif e.kind == "opaque":
                promised(ctx, C, r, e, name)
            elif e.kind == "mksignal":
                k = (e.line, repr(e.data["seq"]))
                v = e.data["seq"]
                if isinstance(v, Seq) and all(x[0] == "item" for x in v.segs) and not v.over and len(v.segs) <= 8:
                    continue      # appended one by one
                if k not in done:
                    done.add(k)
                    ordered(ctx, r, e, name)


def promised(ctx, C, r, e, name):
    """Two signals may be passed on as already aligned only when they are."""
    t = ("rec", e.data["fn"].qn) + tuple(e.data["terms"])
    G = C.resolve(t)
    if G is None or rr.role(G) != "pair" or not any(rr.letter(p["t"]) == "b" for p in G.params):
        return
    flag = rr.syncarg(G, t)
    if flag is False:
        ctx.check(True, f"{name}:aligned", e.where(), "passed as not aligned")
        return
    a, b = [x for q, x in zip(G.params, t[2:]) if rr.letter(q["t"]) == "s"][:2]
    eng = r.eng
    ok = eng.tbase.get(a) == b or eng.tbase.get(b) == a
    ctx.check(decide(e.st, True if ok else (None if flag is None else False)), f"{name}:aligned", e.where(), "passes two signals as aligned that need not be")


def spanned(ctx, r, e):
    """The two ends of a constant: begin and end of the trace (no sample of which ends before it begins)."""
    D = rr.Dispatch(ctx)
    a, b = fld(e.data["last"], "time"), fld(e.data["new"], "time")
    st = e.st
    if a is None or b is None:
        return None
    n = r.eng.size(D.trace)
    if st.facts.entails("<=", n):
        return True          # no signals at all: there is no time to be defined at
    x, y = a.single(), b.single()
    if x is None or y is None or x.key[0] != "phi" or y.key[0] != "phi":
        return False
    if rr.span_loop(ctx, r, D, x, "min")[0] is not True or rr.span_loop(ctx, r, D, y, "max")[0] is not True:
        return None          # C11's obligation
    f = st.facts.copy()
    f.add("<=", a - b)
    return f.entails("<", a - b)


def ordered(ctx, r, e, name):
    eng, v = r.eng, e.data["seq"]
    key = f"{name}:order"
    if not isinstance(v, Seq):
        ctx.check(None, key, e.where(), "samples not understood")
        return
    segs, rev = v.segs, False
    if len(segs) == 1 and segs[0][0] == "rev":
        segs, rev = segs[0][1], True
    w = Walk(r)
    w.segs(e.st, segs, Seq(segs, v.et), ZERO, e.where(), None)
    for where, why in w.bad:
        ctx.check(None, key, where, why)
    for idx in v.over:
        if idx[1] != ("derivative",):
            ctx.check(None, key, e.where(), "samples are overwritten")
    for x in w.splices + w.revs:
        ctx.check(None, key, x[-1], "parts not understood")
    for s, i, path, val, sv, where in w.overs:
        if path not in (("derivative",), ("value",)):
            ctx.check(None, key, where, f"{path} is overwritten")
    for st, S, pos, where in w.bases:
        if not eng.is_sorted(S) or rev:
            ctx.check(None, key, where, f"takes over {S}")
        elif not st.facts.entails("<=", pos):
            ctx.check(None, key, where, f"puts {S} after other samples")
        else:
            ctx.check(True, key, where, "a whole signal")
    for it in w.items:
        t = fld(it.val, "time")
        pr = sg.before(eng, w, it)
        if pr is None:
            ctx.check(True, key, str(it.where), "first sample")
            continue
        q = fld(pr, "time") if isinstance(pr, Struct) else None
        if t is None or q is None:
            ctx.check(None, key, it.where, "time not understood")
            continue
        ok = it.st.facts.entails("<", t - q if rev else q - t)
        ctx.check(decide(it.st, ok), key, it.where, f"the sample at {t!r} is put {'before' if rev else 'after'} the one at {q!r}"[:250])



# ---- C09 ------------------------------------------------------------------------------------------
ACCESSORS = {"front", "back"}      # their callers have to know that there are samples


def c09(ctx):
    """Every dereference of an iterator, every front(), back() and [] on a sequence and every lookup of a time
    in the signal operations and in the evaluation of each kind of formula is proved to stay inside the
    sequence, on every path and in every iteration (inferred loop invariants), for signals of any size
    including none; the accessors whose callers have to know are examined at those callers."""
    for name, F, r in runs(ctx):
        if name in ACCESSORS:
            ctx.count("accessors")
            continue
        if not r.ok or r.eng.gaveup:
            ctx.check(None, name, F, r.why or "loop without invariant")
        accesses(ctx, r, name)
    for F in ctx.fns(WEDGE):
        r = ctx.analyse(F, noprim={F.qn, F.key})
        if not r.ok or r.eng.gaveup:
            ctx.check(None, "wedge", F, r.why or "loop without invariant")
        accesses(ctx, r, "wedge")


def accesses(ctx, r, name):
    for e in r.events:
        if e.kind == "deref":
            what = e.data["what"]
            ctx.check(decide(e.st, e.data["ok"]), f"{name}:{what}", e.where(),
                      f"position {e.data['idx']!r} of {e.data.get('len')!r} elements"[:250])
        elif e.kind == "at":
            ctx.check(decide(e.st, e.data["ok"]), f"{name}:lookup", e.where(), f"looks up {e.data['time']!r}"[:250])
        elif e.kind == "optderef":
            ctx.check(decide(e.st, e.data["ok"]), f"{name}:optional", e.where(), "reads an optional that may be empty")
        elif e.kind == "nullderef":
            ctx.check(decide(e.st, False), f"{name}:null", e.where(), "dereferences a null pointer")
