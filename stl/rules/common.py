"""Helpers shared by the rule sets."""
import itertools
from fractions import Fraction as Fr
from terms import R, ATOMS, ZERO, ONE_R, INF, NAN, IK, elem, atom, size
from values import *
from model import ptype, strip_cvref, INTS, REALS, Broken

AST = "signal_tl::ast::"
SIG = "signal_tl::signal::"
EXPR_ALTS = ["Const", "Predicate", "Not", "And", "Or", "Always", "Eventually", "Until"]


def expr_type(prog):
    """The variant type Expr as spelled in the program."""
    for F in prog.by_qn.get("signal_tl::Not", []) + prog.by_qn.get(AST + "operator~", []):
        return strip_cvref(F.params[0]["t"])
    raise Broken("Expr type")


def alt_kinds(ty):
    """['Const','Predicate','Not',...] in the variant's own order."""
    out = []
    for a in ptype(ty)[1]:
        b, args = ptype(a)
        t = args[0] if b == "std::shared_ptr" else a
        out.append(t.split("::")[-1])
    return out


def has_top(v, depth=0):
    if isinstance(v, Top):
        return True
    if depth > 8:
        return False
    if isinstance(v, Struct):
        return any(has_top(x, depth + 1) for x in v.f.values())
    if isinstance(v, Seq):
        return any(has_top(s[1], depth + 1) for s in v.segs if s[0] == "item")
    if isinstance(v, (Var, Opt)):
        return has_top(v.val, depth + 1)
    if isinstance(v, MapV):
        return any(has_top(x[1], depth + 1) for x in v.ins)
    return False


def num_eval(r, env):
    """Value of a normal form under atom-number -> float, None if an atom is unbound."""
    def pol(p):
        tot = 0.0
        for m, c in p.items():
            x = float(c)
            for a, e in m:
                v = env.get(a)
                if v is None:
                    return None
                for _ in range(e):
                    x = x * v
            tot = tot + x
        return tot
    n = pol(r.num)
    if n is None:
        return None
    if r.den == {(): 1}:
        return n
    d = pol(r.den)
    if d is None or d == 0:
        return None
    return n / d


def lit_value(lit, env):
    """Outcome of a recorded comparison for given operand values (IEEE: NaN compares false)."""
    op, a, b = lit
    x, y = num_eval(a, env), num_eval(b, env)
    if op == "isnan":
        return None if x is None else x != x
    if x is None or y is None:
        return None
    return {"<": x < y, "<=": x <= y, "==": x == y, ">": x > y, ">=": x >= y, "!=": x != y}[op]


def consistent(st, env):
    """Can the path be taken for the given values? None: depends on something else."""
    res = True
    for lit, want in st.lits:
        v = lit_value(lit, env)
        if v is None:
            res = None
        elif v != want:
            return False
    return res


def truthy(res, path):
    return path.st.exact
