"""C29: every operation finishes. Loops have a ranking, recursion descends, the grammar consumes."""
import os
import re
import json
from terms import R, ATOMS, ZERO, ONE_R, INF, elem
from values import *
from model import strip_cvref
from rules.common import *
from rules.seqs import decide
from rules import effrules as ef
from rules import robrules as rr
from rules import sigrules as sg
from rules.winrules import WEDGE
import base
import loops as _loops
import peg
from loops import getloc

S_ = SIG + "Signal"
LOOPS = ("while", "do", "for", "rangefor")


# ---- loops ---------------------------------------------------------------------------------------
def loop_key(L):
    return f"loop:{L.fn.qn.split('::')[-1] if L.fn else '?'}"


def loop_where(L):
    return f"{L.fn.file}:{L.node.get('l', L.fn.line)} ({L.fn.qn})"


def size_of(eng, v):
    if isinstance(v, (Seq, MapV)):
        return eng.seq_len(v)
    return v if isinstance(v, R) and v.is_int() else None


def names(r, out=None, depth=0):
    """Atoms a number is made of, those of indices included."""
    out = set() if out is None else out
    for n in r.atoms():
        if n in out:
            continue
        out.add(n)
        for x in ATOMS[n].key:
            if hasattr(x, "r") and isinstance(x.r, R):
                names(x.r, out, depth + 1)
        for x in ATOMS[n].info or ():
            if isinstance(x, R):
                names(x, out, depth + 1)
    return out


def flat(k):
    """All hashable parts of a key."""
    if isinstance(k, tuple):
        yield k
        for x in k:
            yield from flat(x)
    elif hasattr(k, "r"):
        for n in names(k.r):
            yield from flat(ATOMS[n].key)
    else:
        yield k


def fixed(L, n):
    """Is this atom the same in every iteration?"""
    for x in flat(ATOMS[n].key):
        # symbols made before this loop was entered are older than the loop
        if isinstance(x, tuple) and len(x) > 1 and x[0] in ("k", "phi", "q") and not (isinstance(x[1], int) and x[1] < L.uid):
            return False
    return True


def measures(L, eng):
    out = []
    for c in L.changed:
        vs = [(size_of(eng, getloc(eng, e.s0, c)), size_of(eng, getloc(eng, e.s1, c))) for e in L.edges]
        out.append((c, vs))
    return out


def bounded(L, st, v, up):
    f = st.facts
    if not up:
        return f.entails("<=", -v) or f.entails("<=", -v - ONE_R)
    c = v.const()
    if c is not None:
        return True
    done = set()
    for rel, x in f.items:
        for n in x.atoms():
            a = ATOMS[n]
            if n in done or a.kind != "i":
                continue
            done.add(n)
            if fixed(L, n) and f.entails("<=", v - R.a(a) - ONE_R):
                return True
    for n in names(v):
        a = ATOMS[n]
        if n not in done and a.kind == "i" and fixed(L, n) and f.entails("<=", v - R.a(a) - ONE_R):
            return True
    return any(f.entails("<=", v - R.c(c)) for c in (0, 1, 64))


def components(edges):
    """Edges that lie on a cycle of partitions, by component."""
    succ = {}
    for n, e in edges:
        succ.setdefault(e.src, set()).add(e.dst)

    def reach(a):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for y in succ.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    r = {e.src: reach(e.src) for _, e in edges}
    out = {}
    for n, e in edges:
        if e.dst in r and e.src in r[e.dst]:
            k = frozenset(x for x in r[e.src] if x in r and e.src in r[x])
            out.setdefault(k, []).append((n, e))
    return list(out.values())


def ranked(L, eng, edges, ms):
    """Is there a lexicographic ranking for these edges? -> the edges without one"""
    left = []
    for comp in components(edges):
        rest = comp
        for c, vs in ms:
            for up in (True, False):
                if any(vs[n][0] is None or vs[n][1] is None for n, e in comp):
                    continue
                d = lambda n: (vs[n][0] - vs[n][1]) if up else (vs[n][1] - vs[n][0])
                if not all(e.s1.facts.entails("<=", d(n)) for n, e in comp):
                    continue
                strict = {n for n, e in comp if e.s1.facts.entails("<", d(n)) and bounded(L, e.s1, vs[n][0] if up else vs[n][0], up)}
                if strict:
                    rest = [(n, e) for n, e in comp if n not in strict]
                    break
            if rest is not comp:
                break
        if rest is comp:
            left += [e for _, e in comp]
        elif rest:
            left += ranked(L, eng, rest, ms)
    return left


def grown(a, b):
    return isinstance(a, Seq) and isinstance(b, Seq) and b.segs[:len(a.segs)] == a.segs and dict.fromkeys(a.over) == dict.fromkeys(b.over)


GOOD = ("elem", "size", "phi", "k")


def stuck(L, eng, e):
    """An iteration after which everything the conditions looked at is as before: it repeats for ever."""
    s0, s1 = e.s0, e.s1
    if not s1.exact or s1.facts.unsat() or e.src != e.dst:
        return False
    if len(s1.bools) != len(s0.bools) or len(s1.ens) != len(s0.ens) or len(s1.alts) != len(s0.alts):
        return False
    moved = set()
    for c in L.changed:
        a, b = getloc(eng, s0, c), getloc(eng, s1, c)
        if a is b or a == b:
            continue
        if isinstance(a, R) and isinstance(b, R):
            if s1.facts.entails("==", a - b):
                continue
            moved |= {ATOMS[n].key for n in a.atoms()}
        elif grown(a, b):
            for s in a.segs:
                if s[0] in ("base", "splice"):
                    moved.add(s[1])
                elif s[0] == "rev":
                    return False
        else:
            return False
    lits = s1.lits[len(s0.lits):] if s1.lits[:len(s0.lits)] == s0.lits else None
    if lits is None:
        return False
    for lit, _ in lits:
        for x in lit[1:]:
            if not isinstance(x, R):
                return False
            for n in names(x):
                k = ATOMS[n].key
                if any(y in moved for y in flat(k)):
                    return False
                if k[0] == "q":
                    return False
    return True


def stuck_few(L, eng, e):
    """The same on an execution with few iterations."""
    if not e.s1.exact or e.s1.facts.unsat():
        return False
    for c in _loops.changed(eng, e.s0, e.s1):
        a, b = getloc(eng, e.s0, c), getloc(eng, e.s1, c)
        if a is b or a == b or grown(a, b):
            continue
        if isinstance(a, R) and isinstance(b, R) and e.s1.facts.entails("==", a - b):
            continue
        return False
    return True


def one_loop(ctx, eng, L):
    key, where = loop_key(L), loop_where(L)
    if _loops.UNROLL:
        ctx.check(not any(stuck_few(L, eng, e) for e in L.edges), key, where, "an iteration changes nothing that decides about the next one")
        return
    ctx.count("edges", len(L.edges))
    edges = [(n, e) for n, e in enumerate(L.edges) if e.src != "pre" and not e.s1.facts.unsat()]
    left = ranked(L, eng, edges, measures(L, eng))
    if not left:
        ctx.check(True, key, where, "")
        return
    bad = [e for e in left if stuck(L, eng, e)]
    if os.environ.get("STL_DEBUG"):
        print("no rank", where, [(c, [(repr(a), repr(b)) for n, (a, b) in enumerate(vs) if L.edges[n] in left]) for c, vs in measures(L, eng)])
        for e in left:
            print("   ", e.src, e.dst, [x for x in e.s1.facts.items])
    ctx.check(False if bad else None, key, where, "an iteration changes nothing that decides about the next one" if bad else "no measure found that decreases in every iteration")


def loop_stmts(F):
    out = []

    def see(n, up):
        if n.get("s") in LOOPS and n not in out:
            out.append(n)
    if F.j.get("b"):
        ef.scan(F.j["b"], see)
    return out


def loop_rules(ctx):
    seen, runs = {}, []
    _loops.RECORD = True
    try:
        for name, F, r in term_runs(ctx):
            runs.append((name, F, r))
            if not r.ok or r.eng.gaveup:
                ctx.check(None, f"loop:{F.qn.split('::')[-1]}", F, r.why or "loop without invariant")
            for L in r.loops.values():
                if L.fn is None or not L.fn.file.startswith(base.REPO + "/src"):
                    continue
                k = (L.fn.file, L.node.get("l"))
                seen[k] = seen.get(k, 0) + 1
                one_loop(ctx, r.eng, L)
            r.loops.clear()
            r.paths = []
            r.events = [e for e in r.events if e.kind in ("opaque", "format")]
            r.eng.events = []
    finally:
        _loops.RECORD = False
    if _loops.UNROLL:
        return runs
    # every loop of the library is one of those
    done = set()
    for F in ctx.prog.all_functions():
        if not F.file.startswith(base.REPO + "/src") or F.qn.startswith("stl_driver"):
            continue
        for n in loop_stmts(F):
            k = (F.file, n.get("l"))
            if k in done:
                continue
            done.add(k)
            ctx.count("loop_statements")
            if k not in seen:
                ctx.check(plain_range(n), f"loop:{F.qn.split('::')[-1]}", f"{F.file}:{n.get('l')} ({F.qn})", "this loop was not reached by the analysis")
    return runs


def plain_range(n):
    """A range-for over something its body does not change (nothing but reads)."""
    return None


def term_runs(ctx):
    for x in ef.all_runs(ctx):
        yield x
    for F in sg.members(ctx, ctor=True):
        yield F.qn, F, ctx.construct(F, S_, noprim={S_ + "::Signal"})
    for F in ctx.fns(WEDGE):
        yield F.qn, F, ctx.analyse(F, noprim={F.qn, F.key})


# ---- recursion -------------------------------------------------------------------------------------
def proper_part(term, own):
    """Is this term a part of the value named own, and not all of it?"""
    depth = 0
    while isinstance(term, tuple) and term:
        if term == own:
            return depth > 0
        if term[0] in ("fld", "el") and len(term) > 1:
            term, depth = term[1], depth + 1
        elif term[0] == "alt" and len(term) == 3:
            term = term[1]
        elif term[0] == "var" and len(term) == 3:
            term = term[2]
        elif term[0] == "ptr" and len(term) == 2:
            term = term[1]
        else:
            return False
    return False


def whole(term, own):
    while isinstance(term, tuple) and term:
        if term == own:
            return True
        if term[0] == "var" and len(term) == 3:
            term = term[2]
        elif term[0] == "alt" and len(term) == 3:
            term = term[1]
        elif term[0] == "ptr" and len(term) == 2:
            term = term[1]
        else:
            return False
    return False


def recursion(ctx, runs):
    todo = {}
    for name, F, r in runs:
        own = {G for G in (F,)}
        for e in r.events:
            if e.kind != "opaque":
                continue
            G = e.data["fn"]
            if G.key in r.eng.noinline or G.qn in r.eng.noinline:
                # analysed on its own: only a call of itself is a recursion here
                if G.key != F.key:
                    continue
            key = f"recursion:{G.qn.split('::')[-1]}"
            terms = e.data["terms"]
            if F.qn == rr.ROOT:
                own = ("p", F.params[0]["n"])
                if any(proper_part(x, own) for x in terms):
                    ctx.check(True, key, e.where(), "an operand")
                    continue
                if any(whole(x, own) for x in terms):
                    ctx.check(decide(e.st, False), key, e.where(), "evaluates the formula itself again")
                    continue
                todo.setdefault(G.key, (G, []))[1].append((F, r, e))
                continue
            if G.key == F.key and same_args(r, F, terms):
                ctx.check(decide(e.st, False), key, e.where(), "calls itself with the same arguments")
                continue
            if G.key == F.key and any(proper_part(x, ("p", q["n"])) for q, x in zip(params_of(F), terms)):
                ctx.check(True, key, e.where(), "a part of the argument")
                continue
            todo.setdefault(G.key, (G, []))[1].append((F, r, e))
    for G, uses in todo.values():
        key = f"recursion:{G.qn.split('::')[-1]}"
        ok = endless(ctx, G)
        for F, r, e in uses[:4]:
            if os.environ.get("STL_DEBUG"):
                print("recursive", F.qn, "->", G.qn, e.data["terms"])
            ctx.check(False if ok else (True if flagged(ctx, G, uses) else None), key, e.where(),
                      "every path through the function calls it again" if ok else "recursion not understood")


def params_of(F):
    return ([{"n": "this"}] if F.j.get("cls") and not F.j.get("static") and not F.j.get("ctor") else []) + list(F.params)


def same_args(r, F, terms):
    ps = params_of(F)
    return len(ps) == len(terms) and all(whole(x, ("p", q["n"])) or x == ("val", repr(B(("p", q["n"])))) for q, x in zip(ps, terms))


def endless(ctx, F):
    """No path through the function ends without calling it again."""
    def prep(eng, st):
        eng.noreturn = {F.key}
    r = ctx.analyse(F, prep=prep, noprim={F.qn, F.key})
    return r.ok and not r.eng.gaveup and not r.paths


def flagged(ctx, F, uses):
    """The recursive calls pass a constant for which the function does not call itself."""
    for n, q in enumerate(params_of(F)):
        vs = {e.data["terms"][n] if n < len(e.data["terms"]) else None for _, _, e in uses}
        if len(vs) != 1:
            continue
        x = vs.pop()
        if isinstance(x, tuple) and x[0] == "val" and x[1] in ("True", "False") and q["n"] != "this":
            args = [None] * len(F.params)
            args[[p["n"] for p in F.params].index(q["n"])] = x[1] == "True"
            r = ctx.analyse(F, args=args)
            if r.ok and not r.eng.gaveup and not any(e.kind == "opaque" and e.data["fn"].key == F.key for e in r.events):
                return True
    return False


def printing(ctx, runs):
    """A formatter hands only parts of its argument on to further formatters."""
    for name, F, r in runs:
        if not (F.qn.startswith("fmt::formatter<") and F.qn.endswith("::format") and F.params):
            continue
        own = ("p", F.params[0]["n"])
        t = strip_cvref(F.params[0]["t"])
        n = 0
        for e in r.events:
            if e.kind != "format":
                continue
            for ref, v in e.data["args"]:
                n += 1
                if isinstance(ref, Ref) and ref == Ref(("in", F.params[0]["n"])) and isinstance(v, (Struct, Var, Ptr)):
                    ctx.check(decide(e.st, False), "recursion:format", e.where(), f"the formatter of {t} prints the {t} it was given")
        ctx.check(True, "recursion:format", F, f"{n} parts")


# ---- grammar ---------------------------------------------------------------------------------------
P = peg.PEGNS
SOLID = set(peg.CLASSES) | {"one", "not_one", "range", "not_range", "ranges", "identifier", "keyword", "eol", "two", "three", "char_"}
EMPTY = {"success", "discard", "eof", "eolf", "everything"}


class Consume:
    """Which rules can match without consuming anything, and which do so at the end of the input."""

    def __init__(self, G):
        self.G = G
        self.memo = {}        # key -> may match without consuming (least fixpoint)
        self.seen = {}

    def collect(self, t):
        todo = [t]
        while todo:
            t = todo.pop()
            k = peg.key(t)
            if k in self.seen:
                continue
            self.seen[k] = t
            todo += self.subs(t)

    def subs(self, t):
        if t["rec"].startswith(P):
            return [x for x in t.get("args", ()) if isinstance(x, dict) and "rec" in x]
        r = self.G.rec(t)
        return [b for b in (r["bases"] if r else []) if isinstance(b, dict) and "rec" in b]

    def ints(self, t):
        return [int(x["int"]) for x in t.get("args", ()) if "int" in x]

    def solve(self):
        self.memo = {k: False for k in self.seen}
        ch = True
        while ch:
            ch = False
            for k, t in self.seen.items():
                if not self.memo[k] and self.step(t):
                    self.memo[k] = ch = True

    def may(self, t):
        return self.memo.get(peg.key(t), True)

    def all(self, ts):
        return all(self.may(x) for x in ts)

    def step(self, t):
        n = t["rec"]
        a = self.subs(t)
        if not n.startswith(P):
            r = self.G.rec(t)
            if r is None or len(a) != 1 or any(m["n"] == "match" for m in r["methods"]):
                return True
            return self.may(a[0])
        s = n[len(P):].split("::")[-1]
        if s in SOLID:
            return False
        if s in ("string", "istring"):
            return not self.ints(t)
        if s in ("opt", "star", "opt_must", "star_must", "star_partial", "rep_max", "rep_opt", "at", "not_at", "pad_opt", "bof", "bol") or s in EMPTY:
            return True
        if s in ("seq", "plus", "must", "disable", "enable", "if_must", "strict", "try_catch", "list", "list_must", "list_tail"):
            return self.all(a if not s.startswith("list") else a[:1])
        if s in ("rep", "rep_min", "rep_min_max"):
            return (self.ints(t) or [0])[0] == 0 or self.all(a)
        if s == "sor":
            return any(self.may(x) for x in a)
        if s == "until":
            return self.may(a[0])
        if s in ("if_then_else", "if_must_else"):
            return self.may(a[0]) and self.may(a[1]) or self.may(a[2])
        if s == "pad":
            return self.may(a[0])
        if s in ("raise", "failure"):
            return False
        return True

    # outcome at the end of the input: True matches, False fails, 'T' throws, None unknown
    def end(self, t, busy=()):
        k = peg.key(t)
        if k in busy:
            return None
        busy = busy + (k,)
        n, a = t["rec"], self.subs(t)
        E = lambda x: self.end(x, busy)
        if not n.startswith(P):
            r = self.G.rec(t)
            if r is None or len(a) != 1 or any(m["n"] == "match" for m in r["methods"]):
                return None
            return E(a[0])
        s = n[len(P):].split("::")[-1]

        def seq(xs, must=False):
            for x in xs:
                v = E(x)
                if v is not True:
                    return "T" if must and v is False else v
            return True
        if s in SOLID or s in ("failure",):
            return False
        if s == "raise":
            return "T"
        if s in ("string", "istring"):
            return not self.ints(t)
        if s in EMPTY:
            return True
        if s in ("seq", "plus", "disable", "enable", "strict", "list"):
            return seq(a[:1] if s == "list" else a)
        if s == "must":
            return seq(a, True)
        if s in ("opt", "star", "rep_max", "rep_opt"):
            v = seq(a)
            return True if v is False else v
        if s in ("rep", "rep_min", "rep_min_max"):
            return seq(a) if (self.ints(t) or [0])[0] else (True if seq(a) in (True, False) else seq(a))
        if s in ("if_must", "opt_must"):
            v = E(a[0])
            return seq(a[1:], True) if v is True else (True if v is False and s == "opt_must" else v)
        if s == "sor":
            for x in a:
                v = E(x)
                if v is not False:
                    return v
            return False
        if s in ("at", "not_at"):
            v = seq(a)
            return v if v in (None, "T") else v == (s == "at")
        if s == "until":
            v = E(a[0])
            if v is not False:
                return v
            if len(a) == 1:
                return False
            v = seq(a[1:])
            return v if v is not True else None
        return None

    def repeats(self, t):
        """(what is repeated, the rule that ends the repetition or None)"""
        s, a = t["rec"][len(P):].split("::")[-1], self.subs(t)
        if s in ("star", "plus", "star_must", "star_partial"):
            return [(a, None)]
        if s == "until" and len(a) > 1:
            return [(a[1:], a[0])]
        if s in ("list", "list_must", "list_tail") and len(a) > 1:
            return [([a[1], a[0]], None)] + [([x], None) for x in a[2:3]]
        if s == "pad":
            return [([x], None) for x in a[1:]]
        if s == "pad_opt":
            return [([x], None) for x in a[1:]]
        if s == "rep_min":
            return [(a, None)]
        return []

    def starts(self, t):
        """Rules tried before anything was consumed, and whether only after a rule that need not consume."""
        n, a = t["rec"], self.subs(t)
        if not n.startswith(P):
            return a
        s = n[len(P):].split("::")[-1]
        if s == "sor" or s in ("at", "not_at") and len(a) == 1:
            return a
        if s == "if_then_else":
            return a
        if s == "until":
            return a[:1] + self.prefix(a[1:])
        return self.prefix(a)

    def prefix(self, a):
        out = []
        for x in a:
            out.append(x)
            if not self.may(x):
                break
        return out


def grammar(ctx):
    G = peg.Grammar(ctx.prog)
    roots = []

    for F in ctx.prog.all_functions():
        if not F.file.startswith(base.REPO + "/src/parser") or not F.j.get("b"):
            continue

        def see(n, up):
            for x in n.get("tr") or ():
                if isinstance(x, dict) and "rec" in x and n.get("fn", "").startswith(P) and n["fn"].split("::")[-1] in ("parse", "parse_nested", "match"):
                    roots.append((x, F))
        ef.scan(F.j["b"], see)
    if not roots:
        ctx.missing("the grammar rule given to the parser")
        return
    C = Consume(G)
    for t, F in roots:
        C.collect(t)
    C.solve()
    where = {}
    for k, t in C.seen.items():
        r = G.rec(t)
        if r is not None and not t["rec"].startswith(P):
            where[k] = r
    user = {}
    for k, t in C.seen.items():       # the named rule a library rule is used in
        if not t["rec"].startswith(P):
            todo, got = C.subs(t), set()
            while todo:
                x = todo.pop()
                kx = peg.key(x)
                if kx in got or not x["rec"].startswith(P):
                    continue
                got.add(kx)
                user.setdefault(kx, t)
                todo += C.subs(x)

    def loc(t):
        u = t if not t["rec"].startswith(P) else user.get(peg.key(t))
        r = where.get(peg.key(u)) if u else None
        if r is None:
            return "src/parser/grammar.hpp"
        return f"{r.get('file', '')}:{r.get('l', 0)} ({r.get('qn', peg.show(u))})"
    for k, t in C.seen.items():
        if not t["rec"].startswith(P):
            continue
        for body, stop in C.repeats(t):
            ctx.count("repetitions")
            if not C.all(body):
                ctx.check(True, "grammar:repetition", loc(t), "every repetition consumes")
                continue
            if any(C.end(x) is False for x in body):
                ok = None
            else:
                ok = False if all(C.end(x) is True for x in body) and (stop is None or C.end(stop) is False) else None
            ctx.check(ok, "grammar:repetition", loc(t), f"{peg.show(t)} repeats a rule that can match without consuming anything")
    # no rule reaches itself before anything is consumed
    starts = {k: [peg.key(x) for x in C.starts(t) if peg.key(x) in C.seen] for k, t in C.seen.items()}
    state = {}

    def dfs(k, trail):
        state[k] = 1
        for x in starts[k]:
            if state.get(x) == 1:
                cyc = trail[trail.index(x):] if x in trail else [x]
                # definite if every rule skipped on the way may really match nothing
                ctx.check(False if all(clean(C, C.seen[y], C.seen[z]) for y, z in zip(cyc, cyc[1:] + [x])) else None, "grammar:left recursion", loc(C.seen[x]),
                          f"{peg.show(C.seen[x])} tries itself again at the same place")
            elif state.get(x) is None:
                dfs(x, trail + [x])
        state[k] = 2
    for k in C.seen:
        if state.get(k) is None:
            dfs(k, [k])
    ctx.count("rules", len(C.seen))
    ctx.check(True, "grammar:rules", loc(roots[0][0]), f"{len(C.seen)} rules")


def clean(C, t, x):
    """x is tried by t at the same place whatever comes before it: nothing comes before it."""
    a = C.starts(t)
    s = t["rec"].split("::")[-1]
    if not t["rec"].startswith(P) or s == "sor":
        # an alternative is tried when those before it fail
        return True
    for y in a:
        if y == x:
            return True
        if C.end(y) is not True:
            return False
    return False


def c29(ctx):
    """Every loop of the library has a lexicographic measure, found among the positions, counters and sizes it changes: on
    every loop edge (inferred invariants) no part of it moves back, one strictly advances, and it is bounded by
    something the loop does not change. Evaluation and printing recurse on proper parts of their formula only, other
    recursion is bounded by an argument. In the grammar (the rule types the compiler instantiated) nothing is repeated
    that can match without consuming, and no rule tries itself before something was consumed."""
    runs = loop_rules(ctx)
    if _loops.UNROLL:
        return
    recursion(ctx, runs)
    printing(ctx, runs)
    grammar(ctx)
    ctx.final |= {o[1] for o in ctx.obl if o[1].startswith(("recursion:", "grammar:"))}
