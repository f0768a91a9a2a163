"""Entry point of the abstract interpretation: analyse one function on symbolic inputs."""
import os
import time
from engine import Engine, TooBig
from terms import *
from values import *
from model import *


class Path:
    def __init__(self, st, val, exc=None, line=0, fn=None):
        self.st, self.val, self.exc, self.line, self.fn = st, val, exc, line, fn

    def __repr__(self):
        return f"<throw {self.exc.ty}>" if self.exc else f"<return {self.val!r}>"


class Result:
    def __init__(self, F, eng):
        self.F, self.eng = F, eng
        self.paths = []
        self.events = []
        self.loops = {}
        self.ok = True
        self.why = ""

    @property
    def returns(self):
        return [p for p in self.paths if p.exc is None]

    @property
    def throws(self):
        return [p for p in self.paths if p.exc is not None]


def analyse(prog, F, args=None, this=None, noprim=(), noinline=(), prep=None, max_steps=400000, types=None, at_prim=False, nofork=False, budget=None):
    """args: list of values (or None for symbolic); this: value for the object (None: symbolic)."""
    eng = Engine(prog)
    eng.noprim = set(noprim)
    eng.noinline = set(noinline)
    eng.at_prim, eng.nofork_minmax = at_prim, nofork
    eng.deadline = time.time() + budget if budget else None
    eng.max_steps = max_steps
    st = eng.new_state()
    st.fn = F
    actual = []
    for n, p in enumerate(F.params):
        v = args[n] if args is not None and n < len(args) and args[n] is not None else None
        if v is None:
            v = eng.sym(p["t"], ("p", p["n"] or f"#{n}"))
        if isinstance(v, Ref):
            actual.append(v)
        else:
            root = ("in", p["n"] or f"#{n}")
            st.cells[root] = v
            actual.append(Ref(root))
    tref = None
    if F.j.get("cls") and not F.j.get("static"):
        cls = F.j.get("clst") or F.j["cls"]
        root = ("in", "this")
        st.cells[root] = this if this is not None else eng.sym(cls, ("p", "this"))
        tref = Ref(root)
    if prep:
        prep(eng, st)
    res = Result(F, eng)
    try:
        outs = eng.call_fun(st, F, tref, actual, {"l": F.line}, ctor=False)
        for s, v in outs:
            if not s.facts.unsat():
                res.paths.append(Path(s, v))
        for s, exc, line, fn in eng.throws[0]:
            if not s.facts.unsat():
                res.paths.append(Path(s, None, exc, line, fn))
    except TooBig:
        res.ok, res.why = False, "too big"
    except RecursionError:
        res.ok, res.why = False, "recursion"
    except (TypeError, AttributeError, KeyError, IndexError, ValueError, ZeroDivisionError, AssertionError) as e:
        if os.environ.get("STL_DEBUG"):
            raise
        res.ok, res.why = False, f"analysis gap: {type(e).__name__}: {str(e)[:120]}"
    res.events = eng.events
    res.loops = eng.loops
    return res


def construct(prog, F, t, args=None, noprim=(), max_steps=400000, budget=None, noinline=(), at_prim=False, nofork=False):
    """Analyse constructor F of class t on symbolic arguments; the return value is the object."""
    eng = Engine(prog)
    eng.noprim = set(noprim)
    eng.noinline = set(noinline)
    eng.at_prim, eng.nofork_minmax = at_prim, nofork
    eng.deadline = time.time() + budget if budget else None
    eng.max_steps = max_steps
    st = eng.new_state()
    st.fn = F
    actual = []
    for n, p in enumerate(F.params):
        v = args[n] if args is not None and n < len(args) and args[n] is not None else None
        if v is None:
            v = eng.sym(p["t"], ("p", p["n"] or f"#{n}"))
        root = ("in", p["n"] or f"#{n}")
        st.cells[root] = v
        actual.append(Ref(root))
    res = Result(F, eng)
    try:
        for s, v in eng.construct(st, F, t, actual, {"l": F.line, "t": t, "a": []}):
            if not s.facts.unsat():
                res.paths.append(Path(s, eng.read(s, v)))
        for s, exc, line, fn in eng.throws[0]:
            if not s.facts.unsat():
                res.paths.append(Path(s, None, exc, line, fn))
    except TooBig:
        res.ok, res.why = False, "too big"
    except RecursionError:
        res.ok, res.why = False, "recursion"
    except (TypeError, AttributeError, KeyError, IndexError, ValueError, ZeroDivisionError, AssertionError) as e:
        if os.environ.get("STL_DEBUG"):
            raise
        res.ok, res.why = False, f"analysis gap: {type(e).__name__}: {str(e)[:120]}"
    res.events = eng.events
    res.loops = eng.loops
    return res
