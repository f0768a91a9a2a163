"""Abstract interpreter over the exported program.

Values are normal forms (value numbers), paths are partitioned by branch outcome,
numeric facts live in the polyhedra domain, loops are analysed by peeling the
first iteration and inferring an inductive invariant for the rest (the changed
locations are generalised, candidate relations are kept only if every back edge
re-establishes them). Nothing is executed and no solver is involved.
"""
import sys
import time
from fractions import Fraction as Fr
from terms import R, Facts, elem, size as size_atom, atom, ZERO, ONE_R, INF, NAN, IK, ATOMS, Budget
from model import ptype, strip_cvref, INTS, REALS, Broken
from values import *
import stdlib

sys.setrecursionlimit(20000)


class Ev:
    def __init__(self, kind, st, node, data):
        self.kind, self.st, self.line, self.data = kind, st, (node or {}).get("l", 0), data
        self.fn = st.fn

    def __getattr__(self, n):
        try:
            return self.__dict__["data"][n]
        except KeyError:
            raise AttributeError(n)

    def where(self):
        f = self.fn
        return f"{f.file if f else '?'}:{self.line} in {f.qn if f else '?'}"

    def __repr__(self):
        return f"<{self.kind} {self.where()} {self.data}>"


class Edge:
    def __init__(self, src, dst, s0, s1):
        self.src, self.dst, self.s0, self.s1 = src, dst, s0, s1


class LoopRec:
    def __init__(self, uid, pre, node, fn):
        self.uid, self.pre, self.node, self.fn = uid, pre, node, fn
        self.edges = []       # Edge: one iteration of the body (peeled or general)
        self.parts = {}       # signature -> invariant state
        self.k = None
        self.exits = []
        self.complete = True


class TooBig(Exception):
    pass


class Engine:
    def __init__(self, prog):
        self.prog = prog
        self.reset()

    def reset(self):
        self.events = []
        self.rec = True
        self.n = 0
        self.loops = {}
        self.throws = [[]]
        self.sorted_seqs = set()
        self.sigout = set()
        self.tbase = {}
        self.sbase = {}
        self.noprim = set()
        self.noinline = set()
        self.steps = 0
        self.max_steps = 400000
        self._ord = {}
        self.nofork_minmax = False
        self.at_prim = False
        self.deadline = None
        self.tops = {}
        self.entry_objs = {}
        self.mk = {}
        self.depth = 0
        self.gaveup = 0
        self.nonconst = False
        self.ptr_cls = {}
        self.seqterms = {}
        self.visit_opaque = None
        self.noreturn = set()
        self.sync = {}
        self.sigf = None
        self.in_append = 0

    # ---- context for the relational domain ---------------------------------
    def is_sorted(self, S):
        return S in self.sorted_seqs or self.tbase.get(S) in self.sorted_seqs or S in self.tbase.values()

    # ---- basics -------------------------------------------------------------
    def new_state(self):
        s = State()
        s.facts.axctx = self
        return s

    def fresh(self, tag="t"):
        self.n += 1
        return (tag, self.n)

    def event(self, st, kind, node=None, **data):
        if self.rec:
            self.events.append(Ev(kind, st.copy(), node, data))

    def top(self, st, why, node=None):
        w = f"{why}"
        self.tops[w] = self.tops.get(w, 0) + 1
        return Top(w)

    def alloc(self, st, val, tag="h"):
        r = self.fresh(tag)
        st.cells[r] = val
        if isinstance(val, Struct):
            self.ptr_cls[r] = val.cls
        return Ref(r)

    def throw(self, st, exc, node=None):
        self.throws[-1].append((st, exc, (node or {}).get("l", 0), st.fn))

    # ---- symbolic values ----------------------------------------------------
    def size(self, S):
        return size_atom(self.sbase.get(S, S))

    def field_types(self, t):
        r = self.prog.records.get(t)
        if r is None:
            return None
        return [(f["n"], f["t"]) for f in r["fields"]]

    def sym(self, t, term):
        t = strip_cvref(t)
        b, a = ptype(t)
        if t in REALS:
            return R.a(atom(term, "r"))
        if t in INTS:
            return R.a(atom(term, "i", ("u",) if "unsigned" in t else None))
        if t == "bool":
            return B(term)
        if b == "*":
            return Ptr(Ref(("obj", term, a[0])), "raw")
        if b in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr"):
            return Ptr(Ref(("obj", term, strip_cvref(a[0]))), "shared")
        if b in ("std::vector", "std::deque"):
            return Seq([("base", term)], strip_cvref(a[0]), (), b)
        if b in ("std::map", "std::unordered_map"):
            return MapV(term, (), a[0], a[1])
        if b == "std::variant":
            return Var(t, term, None, None)
        if b == "std::optional":
            return Opt(B(("has", term)), self.sym(a[0], ("optval", term)))
        if b == "std::pair":
            return Struct("std::pair", {"first": self.sym(a[0], ("fld", term, "first")),
                                        "second": self.sym(a[1], ("fld", term, "second"))})
        if b == "std::tuple":
            return Struct("std::tuple", {str(i): self.sym(x, ("fld", term, i)) for i, x in enumerate(a)})
        if b in ("std::basic_string", "std::basic_string_view"):
            return Str(term)
        if t in self.prog.enums:
            return En(t, term)
        if b in stdlib.FUNCTORS:
            return Functor(b)
        ft = self.field_types(t)
        if ft is not None:
            f = {}
            for n, x in ft:
                tm = ("fld", term, n)
                if t == "signal_tl::signal::Signal" and ptype(x)[0] == "std::vector":
                    tm = term
                    self.sorted_seqs.add(term)
                f[n] = self.sym(x, tm)
            return Struct(t, f)
        return Opq(t, term)

    def sym_elem(self, et, S, idx):
        et = strip_cvref(et)
        if et in REALS:
            return elem(S, idx, "")
        ft = self.field_types(et)
        if ft is not None:
            f = {}
            for n, x in ft:
                if x in REALS:
                    S2 = self.tbase.get(S, S) if n == "time" else S
                    if n == "derivative" and (S in self.sorted_seqs or S in self.sigout) and (idx - self.size(S)).const() == -1:
                        f[n] = ZERO
                    else:
                        f[n] = elem(S2, idx, n)
                else:
                    f[n] = self.sym(x, ("fld", ("el", S, IK(idx)), n))
            return Struct(et, f)
        return self.sym(et, ("el", S, IK(idx)))

    def default(self, t, st=None):
        t = strip_cvref(t)
        b, a = ptype(t)
        if t in REALS or t in INTS:
            return ZERO
        if t == "bool":
            return False
        if b in ("std::shared_ptr", "std::unique_ptr", "*"):
            return NULL
        if b in ("std::vector", "std::deque"):
            return Seq([], strip_cvref(a[0]), (), b)
        if b in ("std::map", "std::unordered_map"):
            return MapV(None, (), a[0], a[1])
        if b == "std::optional":
            return Opt(False, None)
        if b in ("std::basic_string", "std::basic_string_view"):
            return Str(("lit", ""))
        if b == "std::variant":
            return Var(t, None, 0, self.default(a[0]))
        if b == "std::pair":
            return Struct("std::pair", {"first": self.default(a[0]), "second": self.default(a[1])})
        if b == "std::tuple":
            return Struct("std::tuple", {str(i): self.default(x) for i, x in enumerate(a)})
        if t in self.prog.enums:
            return En(t, self.prog.enums[t][0])
        if b in stdlib.FUNCTORS:
            return Functor(b)
        ft = self.field_types(t)
        if ft is not None and st is not None:
            f = {}
            for fd in self.prog.records[t]["fields"]:
                if fd.get("i"):
                    rs = self.rv(st, fd["i"])
                    f[fd["n"]] = rs[0][1] if len(rs) == 1 else Top("default init")
                else:
                    f[fd["n"]] = self.default(fd["t"], st)
            return Struct(t, f)
        return Top("default " + t)

    # ---- memory -------------------------------------------------------------
    def cell(self, st, root):
        v = st.cells.get(root)
        if v is None:
            if root[0] == "obj":
                v = self.sym(root[2], root[1])
                st.cells[root] = v
            else:
                return Top(f"unbound {root}")
        return v

    def read(self, st, ref):
        if not isinstance(ref, Ref):
            return ref
        v = self.cell(st, ref.root)
        for p in ref.path:
            v = self.get(st, v, p)
            if isinstance(v, Ref):
                v = self.read(st, v)
        return v

    def get(self, st, v, p):
        if isinstance(v, Top):
            return v
        if isinstance(p, str):
            if isinstance(v, Struct) and p in v.f:
                return v.f[p]
            if isinstance(v, Opq):
                return Top(f"{v.ty}.{p}")
            return Top(f"field {p}")
        if p[0] == "i":
            if isinstance(v, Seq):
                return self.seq_get(st, v, p[1])
            if isinstance(v, Init):
                c = p[1].const()
                return v.vals[int(c)] if c is not None and 0 <= c < len(v.vals) else Top("init idx")
            if isinstance(v, MapV):
                return self.map_get_pos(st, v, p[1])
            return Top("index")
        if p[0] == "a":
            if isinstance(v, Var):
                return self.var_payload(v, p[1])
            return Top("variant payload")
        if p[0] == "opt":
            return v.val if isinstance(v, Opt) else Top("optional payload")
        if p[0] == "m":
            if isinstance(v, MapV):
                return self.map_lookup(st, v, p[1])
            return Top("map")
        return Top("path")

    def var_alts(self, v):
        return ptype(v.ty)[1]

    def var_payload(self, v, k):
        if v.tag == k:
            return v.val
        if v.tag is not None:
            return Top("bad variant access")
        return self.sym(self.var_alts(v)[k], ("alt", v.term, k))

    def write(self, st, ref, val, node=None):
        if not isinstance(ref, Ref):
            st.exact = False
            self.event(st, "wild", node)
            return
        if isinstance(ref.root, tuple) and ref.root[0] in ("obj", "in", "unk"):
            self.event(st, "write", node, ref=ref, val=val)
        if self.rec and self.sigf is None:
            self.sigf = stdlib.sig_field(self)
        if self.rec and not self.in_append and self.sigf in ref.path:
            n = ref.path.index(self.sigf)
            o = self.read(st, Ref(ref.root, ref.path[:n]))
            if isinstance(o, Struct) and o.cls == stdlib.SIGNAL:
                self.event(st, "sigwrite", node, ref=ref, val=val, sub=ref.path[n + 1:], old=self.read(st, ref))
        if not ref.path:
            st.cells[ref.root] = val
            return
        st.cells[ref.root] = self.put(st, self.cell(st, ref.root), ref.path, val)

    def put(self, st, v, path, val):
        if not path:
            return val
        p, rest = path[0], path[1:]
        if isinstance(v, Top):
            return v
        if isinstance(p, str):
            if isinstance(v, Struct):
                return v.with_(p, self.put(st, v.f.get(p, Top("field")), rest, val))
            return Top("put field")
        if p[0] == "i" and isinstance(v, Seq):
            return self.seq_put(st, v, p[1], rest, val)
        if p[0] == "a" and isinstance(v, Var):
            return Var(v.ty, None, p[1], self.put(st, self.var_payload(v, p[1]), rest, val))
        if p[0] == "opt" and isinstance(v, Opt):
            return Opt(True, self.put(st, v.val, rest, val))
        if p[0] == "m" and isinstance(v, MapV):
            nv = self.put(st, self.map_lookup(st, v, p[1]) if rest else None, rest, val)
            return MapV(v.name, v.ins + ((p[1], nv, "assign"),), v.kt, v.vt)
        st.exact = False
        return Top("put")

    # ---- sequences ----------------------------------------------------------
    def seg_len(self, seg):
        if seg[0] == "base":
            return self.size(seg[1])
        if seg[0] == "item":
            return ONE_R
        if seg[0] == "splice":
            return seg[3] - seg[2]
        if seg[0] == "rev":
            return self.segs_len(seg[1])
        raise ValueError(seg)

    def segs_len(self, segs):
        n = ZERO
        for s in segs:
            n = n + self.seg_len(s)
        return n

    def seq_len(self, v):
        if isinstance(v, Init):
            return R.c(len(v.vals))
        if isinstance(v, MapV):
            return (self.size(v.name) if v.name is not None else ZERO) + R.c(len({repr(k) for k, _, _ in v.ins}))
        return self.segs_len(v.segs)

    def seq_get(self, st, v, idx, over=True):
        if not isinstance(idx, R):
            return Top("index")
        if over:
            hit = None
            patches = []
            for oi, opath, oval in v.over:
                d = (oi - idx).const()
                if d is None:
                    if st.facts.entails("==", oi - idx):
                        d = 0
                    elif st.facts.entails("!=", oi - idx):
                        d = 1
                    else:
                        return Top("aliasing element write")
                if d == 0:
                    patches.append((opath, oval))
            if patches:
                x = self.seq_get(st, v, idx, False)
                for opath, oval in patches:
                    x = self.put(st, x, opath, oval)
                return x
        pos = ZERO
        segs = v.segs
        for n, s in enumerate(segs):
            ln = self.seg_len(s)
            last = n == len(segs) - 1
            if s[0] == "item":
                d = (idx - pos).const()
                if d == 0 or (d is None and st.facts.entails("==", idx - pos)):
                    return s[1]
                if d is None and not st.facts.entails("<", pos - idx):
                    return Top("index among items")
            else:
                d = (idx - pos - ln).const()
                here = last or (d is not None and d < 0)
                if not here and d is None:
                    if st.facts.entails("<", idx - pos - ln):
                        here = True
                    elif not st.facts.entails("<=", pos + ln - idx):
                        return Top("index across segments")
                if here:
                    if s[0] == "base":
                        return self.sym_elem(v.et, s[1], idx - pos)
                    if s[0] == "splice":
                        return self.sym_elem(v.et, s[1], s[2] + idx - pos)
                    return self.seq_get(st, Seq(s[1], v.et), ln - ONE_R - (idx - pos))
            pos = pos + ln
        return Top("index past the end")

    def seq_put(self, st, v, idx, rest, val):
        pos = ZERO
        for n, s in enumerate(v.segs):
            if s[0] == "item" and (idx - pos).const() == 0:
                nv = self.put(st, s[1], rest, val)
                return Seq(v.segs[:n] + (("item", nv),) + v.segs[n + 1:], v.et, v.over, v.kind)
            pos = pos + self.seg_len(s)
        return Seq(v.segs, v.et, v.over + ((idx, tuple(rest), val),), v.kind)

    def seq_from(self, st, v):
        """Any iterable value -> Seq or None."""
        if isinstance(v, Seq):
            return v
        if isinstance(v, Init):
            return Seq([("item", x) for x in v.vals], "")
        if isinstance(v, Struct):
            for f in v.f.values():
                if isinstance(f, Seq):
                    return f
        return None

    # ---- maps ---------------------------------------------------------------
    def map_get_pos(self, st, v, idx):
        a = idx.single()
        if a is not None and a.key[0] == "mappos":
            key = a.info[1]
            return Struct("std::pair", {"first": key, "second": self.map_lookup(st, v, key)})
        S = ("map", v.name)
        return Struct("std::pair", {"first": self.sym(v.kt, ("mapkey", S, IK(idx))),
                                    "second": self.sym(v.vt, ("mapval", S, IK(idx)))})

    def map_lookup(self, st, v, key):
        for k, val, how in reversed(v.ins):
            if k == key:
                return val
            if not (isinstance(k, Str) and isinstance(key, Str) and stdlib.distinct_text(k, key)):
                return Top("map aliasing")
        if v.name is None:
            return Top("missing key")
        t = key.term if isinstance(key, Str) else ("key", repr(key))
        return self.sym(v.vt, ("mapat", v.name, t))

    # ---- branching ----------------------------------------------------------
    def cmp(self, st, op, a, b, node=None):
        """-> [(state, bool)]"""
        if op == ">":
            return self.cmp(st, "<", b, a, node)
        if op == ">=":
            return self.cmp(st, "<=", b, a, node)
        if op == "!=":
            return [(s, not r) for s, r in self.cmp(st, "==", a, b, node)]
        if not (isinstance(a, R) and isinstance(b, R)):
            return self.branch_top(st, f"compare {a!r} {op} {b!r}")
        if a == NAN or b == NAN:
            return [(st, False)]
        d = a - b
        if op == "<":
            t, f = ("<", d), ("<=", -d)
        elif op == "<=":
            t, f = ("<=", d), ("<", -d)
        else:
            t, f = ("==", d), ("!=", d)
        return self.fork(st, t, f, (op, a, b))

    def fork(self, st, t, f, lit=None):
        if t[1].const() is None:
            self.nonconst = True
        if st.facts.entails(*t):
            if lit:
                st.lits = st.lits + ((lit, True),)
            return [(st, True)]
        if st.facts.entails(*f):
            if lit:
                st.lits = st.lits + ((lit, False),)
            return [(st, False)]
        s2 = st.copy()
        st.facts.add(*t)
        s2.facts.add(*f)
        if lit:
            st.lits = st.lits + ((lit, True),)
            s2.lits = s2.lits + ((lit, False),)
        return [(st, True), (s2, False)]

    def branch_top(self, st, why):
        self.top(st, why)
        self.nonconst = True
        st.exact = False
        return [(st, True), (st.copy(), False)]

    def truth(self, st, v, node=None):
        if isinstance(v, bool):
            return [(st, v)]
        if isinstance(v, B):
            self.nonconst = True
            if v.term in st.bools:
                return [(st, st.bools[v.term])]
            s2 = st.copy()
            st.bools[v.term] = True
            s2.bools[v.term] = False
            return [(st, True), (s2, False)]
        if isinstance(v, R):
            return self.cmp(st, "!=", v, ZERO, node)
        if isinstance(v, Ptr):
            return [(st, v.ref is not None)]
        if isinstance(v, Opt):
            return self.truth(st, v.has)
        return self.branch_top(st, f"condition {v!r}")

    def eq(self, st, a, b, node=None):
        if isinstance(a, R) and isinstance(b, R):
            return self.cmp(st, "==", a, b, node)
        if isinstance(a, Opt) and isinstance(b, Opt):
            out = []
            for s, ha in self.truth(st, a.has):
                for s, hb in self.truth(s, b.has):
                    if ha != hb:
                        out.append((s, False))
                    elif not ha:
                        out.append((s, True))
                    else:
                        out += self.eq(s, a.val, b.val)
            return out
        if isinstance(a, Opt):
            out = []
            for s, h in self.truth(st, a.has):
                out += self.eq(s, a.val, b) if h else [(s, False)]
            return out
        if isinstance(b, Opt):
            return self.eq(st, b, a)
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            out = []
            for s, x in self.truth(st, a):
                for s, y in self.truth(s, b):
                    out.append((s, x == y))
            return out
        if isinstance(a, R) and isinstance(b, bool):
            return self.cmp(st, "==", a, R.c(int(b)))
        if isinstance(a, En) and isinstance(b, En):
            return self.en_eq(st, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.ref is None or b.ref is None:
                return [(st, (a.ref is None) == (b.ref is None))]
            if a.ref == b.ref:
                return [(st, True)]
            return self.truth(st, B(("ptreq", repr(a), repr(b))))
        if isinstance(a, It) and isinstance(b, It):
            return self.cmp(st, "==", a.pos, b.pos, node)
        if isinstance(a, Str) and isinstance(b, Str):
            if a == b:
                return [(st, True)]
            if stdlib.distinct_text(a, b):
                return [(st, False)]
            x, y = sorted((a, b), key=repr)
            return self.truth(st, B(("streq", x.term, y.term)))
        if isinstance(a, Struct) and isinstance(b, Struct) and a.f.keys() == b.f.keys():
            outs = [(st, True)]
            for k in a.f:
                nx = []
                for s, r in outs:
                    nx += self.eq(s, a.f[k], b.f[k]) if r else [(s, False)]
                outs = nx
            return outs
        if isinstance(a, Top) or isinstance(b, Top):
            return self.branch_top(st, f"equality {a!r} {b!r}")
        return self.truth(st, B(("eq", repr(a), repr(b))))

    def en_eq(self, st, a, b):
        if isinstance(a.val, str) and isinstance(b.val, str):
            return [(st, a.val == b.val)]
        if isinstance(a.val, str):
            a, b = b, a
        if isinstance(b.val, str):
            poss = st.ens.get(a.val)
            if poss is None:
                poss = tuple(self.prog.enums.get(a.en, ()))
            if b.val not in poss:
                return [(st, False)]
            if len(poss) == 1:
                return [(st, True)]
            s2 = st.copy()
            st.ens[a.val] = (b.val,)
            s2.ens[a.val] = tuple(p for p in poss if p != b.val)
            return [(st, True), (s2, False)]
        if a.val == b.val:
            return [(st, True)]
        out = []
        for name in self.prog.enums.get(a.en, ()):
            for s, r in self.en_eq(st.copy(), a, En(a.en, name)):
                if r:
                    out += self.en_eq(s, b, En(a.en, name))
        return out

    def var_split(self, st, v):
        """-> [(state, k)] for a Var."""
        if v.tag is not None:
            return [(st, v.tag)]
        if v.term in st.alts:
            return [(st, st.alts[v.term])]
        out = []
        n = len(self.var_alts(v))
        for k in range(n):
            s = st.copy() if k < n - 1 else st
            s.alts[v.term] = k
            out.append((s, k))
        return out

    # ---- expressions --------------------------------------------------------
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps or (self.deadline and time.time() > self.deadline):
            raise TooBig()

    def rv(self, st, e):
        out = [(s, self.read(s, x)) for s, x in self.ev(st, e)]
        if e.get("k") in ("ref", "member"):
            for s, v in out:
                if isinstance(v, Top) and v.why.startswith("uninit ") and e.get("ro"):
                    self.event(s, "uninit", e, name=v.why[7:])
        return out

    def lv(self, st, e):
        out = []
        for s, x in self.ev(st, e):
            out.append((s, x if isinstance(x, Ref) else self.alloc(s, x, "tmp")))
        return out

    def evs(self, st, es, how=None):
        """Evaluate a list of expressions left to right -> [(state, [values])]."""
        outs = [(st, [])]
        for n, e in enumerate(es):
            nx = []
            for s, vs in outs:
                f = self.ev if how is None else how[n]
                for s2, x in f(s, e):
                    nx.append((s2, vs + [x]))
            outs = nx
        return outs

    def mark_moves(self, e):
        """Arguments std::move'd into a library function or an implicit move operation lose their value."""
        e["mv"] = 1
        pt, a = e.get("pt") or (), e.get("a") or ()
        if e.get("repo") and not e.get("impl") and not e.get("copy"):
            return
        for t, x in zip(reversed(pt), reversed(a)):
            if t.endswith("&&") and x and x.get("k") == "call" and x.get("fn") == "std::move" and len(x["a"]) == 1 \
                    and not (x.get("ta") or [""])[0].startswith("const "):
                x["moved"] = True

    def litval(self, e):
        vt, v = e.get("vt"), e.get("val")
        if vt == "float":
            if v == "inf":
                return INF
            if v == "-inf":
                return -INF
            if v == "nan":
                return NAN
            return R.c(Fr(v))
        if vt == "int":
            return R.c(Fr(v))
        if vt == "bool":
            return v in ("1", "true", "-1")
        if vt == "str":
            return Str(("lit", v))
        if vt == "null":
            return NULL
        if vt == "enum":
            return En(e.get("en"), v)
        return Top("literal")

    def ev(self, st, e):
        self.tick()
        k = e["k"]
        if "val" in e and e.get("vt") and k in ("lit", "mcall", "call", "ref"):
            return [(st, self.litval(e))]
        m = getattr(self, "ev_" + k, None)
        if m is None:
            st.exact = False
            return [(st, self.top(st, "expr " + k))]
        return m(st, e)

    def ev_lit(self, st, e):
        return [(st, self.litval(e))]

    def ev_zero(self, st, e):
        return [(st, self.default(e["t"], st))]

    def ev_ref(self, st, e):
        if e.get("rk") == "func":
            return [(st, Func(st.fn.tu if st.fn else None, e))]
        r = st.env.get(e["id"])
        if r is None:
            if e.get("rk") in ("global", "slocal"):
                if e.get("qn") == "std::nullopt":
                    return [(st, Opt(False, None))]
                if not e.get("gconst"):
                    self.event(st, "global", e, name=e.get("qn"))
                return [(st, self.top(st, "global " + str(e.get("qn"))))]
            return [(st, self.top(st, f"variable {e['n']}"))]
        return [(st, r)]

    def ev_this(self, st, e):
        return [(st, st.this if st.this is not None else self.top(st, "this"))]

    def deref(self, st, p, node=None):
        """Pointer value -> Ref"""
        if isinstance(p, Ptr):
            if p.ref is None:
                self.event(st, "nullderef", node)
                return Ref(self.fresh("null"))
            return p.ref
        if isinstance(p, It):
            return self.it_ref(st, p, node)
        if isinstance(p, Opt):
            return None
        r = self.fresh("unk")
        st.cells[r] = Top("deref of " + repr(p)[:60])
        st.exact = False
        return Ref(r)

    def it_ref(self, st, it, node=None):
        c = self.read(st, it.ref)
        self.bounds(st, c, it.pos, node, "iterator")
        return it.ref + ("i", it.pos)

    def bounds(self, st, c, idx, node, what):
        if not self.rec:
            return
        s = c if isinstance(c, (Seq, Init, MapV)) else None
        if s is None:
            self.event(st, "deref", node, what=what, idx=idx, ok=None, seq=c)
            return
        if isinstance(idx, Top):
            self.event(st, "deref", node, what=what, idx=idx, ok=None, seq=c)
            return
        n = self.seq_len(s)
        ok = st.facts.entails("<=", -idx) and st.facts.entails("<", idx - n)
        self.event(st, "deref", node, what=what, idx=idx, ok=ok, seq=c, len=n)

    def ev_member(self, st, e):
        out = []
        for s, b in self.ev(st, e["b"]):
            if e.get("arrow"):
                p = self.read(s, b)
                r = self.deref(s, p, e)
                out.append((s, r + e["n"]))
            elif isinstance(b, Ref):
                out.append((s, b + e["n"]))
            else:
                v = self.get(s, b, e["n"])
                out.append((s, v))
        return out

    def ev_un(self, st, e):
        op = e["op"]
        if op == "&":
            return [(s, Ptr(x, "raw")) for s, x in self.lv(st, e["x"])]
        if op == "*":
            return [(s, self.deref(s, x, e)) for s, x in self.rv(st, e["x"])]
        if op in ("++", "--"):
            out = []
            for s, r in self.lv(st, e["x"]):
                old = self.read(s, r)
                one = ONE_R if op == "++" else -ONE_R
                if isinstance(old, R):
                    new = old + one
                elif isinstance(old, It):
                    new = self.it_add(s, old, one, e)
                else:
                    new = self.top(s, "++")
                self.write(s, r, new, e)
                out.append((s, old if e.get("post") else r))
            return out
        out = []
        for s, x in self.rv(st, e["x"]):
            if op == "!":
                out += [(s2, not b) for s2, b in self.truth(s, x, e)]
            elif op == "-":
                out.append((s, -x if isinstance(x, R) else self.top(s, "neg")))
            elif op == "+":
                out.append((s, x))
            else:
                out.append((s, self.top(s, "unary " + op)))
        return out

    def arith(self, st, op, a, b):
        if isinstance(a, bool):
            a = R.c(int(a))
        if isinstance(b, bool):
            b = R.c(int(b))
        if isinstance(a, R) and isinstance(b, R):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return ("div", a, b)
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None and ca.denominator == 1 == cb.denominator:
                x, y = int(ca), int(cb)
                try:
                    return R.c({"%": lambda: x % y, "<<": lambda: x << y, ">>": lambda: x >> y, "&": lambda: x & y,
                                "|": lambda: x | y, "^": lambda: x ^ y}[op]())
                except Exception:
                    pass
            return R.a(atom(("op", op, IK(a), IK(b)), "i" if a.is_int() and b.is_int() else "r"))
        if isinstance(a, It) and isinstance(b, R):
            return self.it_add(st, a, b if op == "+" else -b)
        if isinstance(a, It) and isinstance(b, It) and op == "-":
            return a.pos - b.pos if not a.rev else b.pos - a.pos
        if isinstance(a, R) and isinstance(b, It) and op == "+":
            return self.it_add(st, b, a)
        if op == "+" and isinstance(a, Str) and isinstance(b, Str):
            return Str(("cat", a.term, b.term))
        if op in ("+", "-", "*", "/"):
            st.exact = st.exact and not (isinstance(a, Top) or isinstance(b, Top))
        return self.top(st, f"arith {op} {a!r} {b!r}"[:80])

    def arith_t(self, st, op, a, b, t):
        v = self.arith(st, op, a, b)
        if isinstance(v, tuple) and v and v[0] == "div":
            _, a, b = v
            if strip_cvref(t) in INTS:
                ca, cb = a.const(), b.const()
                if ca is not None and cb:
                    return R.c(int(ca / cb))
                return R.a(atom(("op", "/", IK(a), IK(b)), "i"))
            if not b.num:
                return NAN if not a.num else self.top(st, "division by zero")
            return a / b
        return v

    def it_add(self, st, it, n, node=None):
        if not isinstance(it.pos, R) or not isinstance(n, R):
            st.exact = False
            return It(it.ref, self.top(st, "iterator position"), it.rev)
        return It(it.ref, it.pos - n if it.rev else it.pos + n, it.rev)

    def ev_bin(self, st, e):
        op = e["op"]
        if op == "&&":
            out = []
            for s, x in self.rv(st, e["x"]):
                for s, b in self.truth(s, x, e["x"]):
                    if not b:
                        out.append((s, False))
                    else:
                        for s2, y in self.rv(s, e["y"]):
                            out += self.truth(s2, y, e["y"])
            return out
        if op == "||":
            out = []
            for s, x in self.rv(st, e["x"]):
                for s, b in self.truth(s, x, e["x"]):
                    if b:
                        out.append((s, True))
                    else:
                        for s2, y in self.rv(s, e["y"]):
                            out += self.truth(s2, y, e["y"])
            return out
        if op == ",":
            out = []
            for s, _ in self.ev(st, e["x"]):
                out += self.ev(s, e["y"])
            return out
        if op == "=":
            out = []
            for s, y in self.rv(st, e["y"]):
                for s, r in self.lv(s, e["x"]):
                    self.write(s, r, y, e)
                    out.append((s, r))
            return out
        out = []
        for s, x in self.rv(st, e["x"]):
            for s, y in self.rv(s, e["y"]):
                if op in ("<", "<=", ">", ">="):
                    if isinstance(x, It) and isinstance(y, It):
                        out += self.cmp(s, op, x.pos, y.pos, e)
                    elif isinstance(x, bool) or isinstance(y, bool):
                        out += self.cmp(s, op, R.c(int(x)) if isinstance(x, bool) else x, R.c(int(y)) if isinstance(y, bool) else y, e)
                    else:
                        out += self.cmp(s, op, x, y, e)
                elif op == "==":
                    out += self.eq(s, x, y, e)
                elif op == "!=":
                    out += [(s2, not b) for s2, b in self.eq(s, x, y, e)]
                else:
                    out.append((s, self.arith_t(s, op, x, y, e["t"])))
        return out

    def ev_cassign(self, st, e):
        out = []
        for s, y in self.rv(st, e["y"]):
            for s, r in self.lv(s, e["x"]):
                v = self.arith_t(s, e["op"], self.read(s, r), y, e["t"])
                self.write(s, r, v, e)
                out.append((s, r))
        return out

    def ev_cond(self, st, e):
        out = []
        for s, c in self.rv(st, e["c"]):
            for s, b in self.truth(s, c, e["c"]):
                out += self.ev(s, e["x"] if b else e["y"])
        return out

    def ev_cast(self, st, e):
        ck, out = e["ck"], []
        for s, v0 in self.ev(st, e["e"]):
            v = self.read(s, v0)
            if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
                out += self.truth(s, v, e)
            elif ck in ("IntegralToFloating", "FloatingCast", "IntegralCast", "BooleanToSignedIntegral"):
                if isinstance(v, B):
                    out += [(s2, R.c(int(b))) for s2, b in self.truth(s, v)]
                elif isinstance(v, bool):
                    out.append((s, R.c(int(v))))
                elif isinstance(v, R) and ck == "IntegralCast" and e["t"] == "bool":
                    out += self.truth(s, v)
                else:
                    if isinstance(v, R) and ck == "FloatingCast" and e["t"] == "float":
                        v = R.a(atom(("narrow", IK(v)), "r"))
                    if isinstance(v, R) and ck == "IntegralCast" and self.narrowing(e["e"]["t"], e["t"]):
                        v = R.a(atom(("narrow", IK(v)), "i"))
                    out.append((s, v))
            elif ck == "FloatingToIntegral":
                if isinstance(v, R):
                    c = v.const()
                    out.append((s, R.c(int(c)) if c is not None else R.a(atom(("trunc", IK(v)), "i"))))
                else:
                    out.append((s, self.top(s, "trunc")))
            elif ck == "NullToPointer":
                out.append((s, NULL))
            elif ck in ("ToVoid",):
                out.append((s, None))
            elif ck in ("BitCast", "LValueBitCast", "BaseToDerived", "Dynamic") or e["st"] == "CXXConstCastExpr":
                out.append((s, v0))
            else:
                out.append((s, v0 if ck == "NoOp" else self.top(s, "cast " + ck)))
        return out

    W = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
         "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}

    def narrowing(self, a, b):
        a, b = strip_cvref(a), strip_cvref(b)
        return a in self.W and b in self.W and self.W[b] < self.W[a]

    def ev_sub(self, st, e):
        out = []
        for s, b in self.rv(st, e["x"]):
            for s, i in self.rv(s, e["y"]):
                out.append((s, self.top(s, "array subscript")))
        return out

    def ev_throw(self, st, e):
        if e["e"] is None:
            self.throw(st, Exc("rethrow", ()), e)
            return []
        for s, v in self.rv(st, e["e"]):
            if isinstance(v, Exc):
                self.throw(s, v, e)
            else:
                self.throw(s, Exc(strip_cvref(e["e"]["t"]), (v,)), e)
        return []

    def ev_lambda(self, st, e):
        env = {}
        outs = [st]
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = st.this
                continue
            r = st.env.get(c["id"])
            if c.get("initcap"):
                rs = self.lv(st, c["i"]) if c["byref"] else self.rv(st, c["i"])
                if len(rs) != 1:
                    env[c["id"]] = self.alloc(st, self.top(st, "init capture"))
                else:
                    st, v = rs[0]
                    env[c["id"]] = v if c["byref"] else self.alloc(st, v, "cap")
            elif r is None:
                env[c["id"]] = self.alloc(st, self.top(st, "capture"))
            elif c["byref"]:
                env[c["id"]] = r
            else:
                env[c["id"]] = self.alloc(st, self.read(st, r), "cap")
        return [(st, Closure(e, st.fn.tu, env, this if this is not None else st.this, st.fn))]

    def ev_initlist(self, st, e):
        t = strip_cvref(e["t"])
        out = []
        if e.get("f") and self.field_types(t) is not None and len(e["f"]) == len(e["a"]):
            ft = dict(self.field_types(t))
            for s, vs in self.evs(st, e["a"], [self.rv] * len(e["a"])):
                out.append((s, Struct(t, {n: self.coerce(s, v, ft[n], a) for n, v, a in zip(e["f"], vs, e["a"])})))
            return out
        for s, vs in self.evs(st, e["a"], [self.rv] * len(e["a"])):
            if vs and all(isinstance(v, (Closure, Overload)) for v in vs) and not t.startswith("std::"):
                out.append((s, Overload(tuple(vs))))
            elif len(vs) == 1 and (t in REALS or t in INTS or t == "bool"):
                out.append((s, vs[0]))
            elif not vs and (t in REALS or t in INTS or t == "bool"):
                out.append((s, self.default(t)))
            elif ptype(t)[0] == "std::pair" and len(vs) == 2:
                out.append((s, Struct("std::pair", {"first": vs[0], "second": vs[1]})))
            elif e.get("f") is not None and not vs and self.field_types(t) is not None:
                out.append((s, self.default(t, s)))
            else:
                out.append((s, Init(tuple(vs))))
        return out

    def ev_stdil(self, st, e):
        out = []
        for s, v in self.rv(st, e["e"]):
            out.append((s, v if isinstance(v, Init) else Init((v,))))
        return out

    def coerce(self, st, v, t, node=None):
        """Convert v (of static type node['t']) to type t where conversions are implicit in our values."""
        t = strip_cvref(t)
        b, a = ptype(t)
        if b == "std::variant" and not isinstance(v, (Var, Top)):
            k = self.alt_index(t, v, node)
            if k is None:
                return self.top(st, f"variant from {v!r}"[:60])
            return Var(t, None, k, v)
        if b == "std::optional" and not isinstance(v, (Opt, Top)):
            return Opt(True, self.coerce(st, v, a[0], node))
        return v

    def alt_index(self, t, v, node):
        alts = [strip_cvref(x) for x in ptype(t)[1]]
        st = strip_cvref(node["t"]) if node else None
        if st in alts:
            return alts.index(st)
        vt = None
        if isinstance(v, Struct):
            vt = v.cls
        elif isinstance(v, (bool, B)):
            vt = "bool"
        elif isinstance(v, Str):
            vt = next((x for x in alts if x.startswith("std::basic_string")), None)
        if vt in alts:
            return alts.index(vt)
        if st is not None:
            b = ptype(st)
            for i, x in enumerate(alts):
                if ptype(x)[0] == b[0] and b[0].startswith("std::") and ptype(x)[1][:1] == b[1][:1]:
                    return i
        if isinstance(v, R) and st in INTS:
            c = [i for i, x in enumerate(alts) if x in INTS]
            if len(c) == 1:
                return c[0]
        if isinstance(v, R) and st in REALS:
            c = [i for i, x in enumerate(alts) if x in REALS]
            if len(c) == 1:
                return c[0]
        return None

    # ---- calls --------------------------------------------------------------
    def ev_call(self, st, e):
        if "mv" not in e:
            self.mark_moves(e)
        if "fn" not in e:
            out = []
            for s, f in self.rv(st, e["callee"]):
                for s, args in self.evs(s, e["a"]):
                    out += self.call_value(s, f, args, e)
            return out
        F = self.prog.resolve(st.fn.tu, e) if st.fn else None
        if F is None or not e.get("repo"):
            return stdlib.call(self, st, e)
        out = []
        for s, args in self.eval_args(st, F, e["a"]):
            out += self.call_fun(s, F, None, args, e)
        return out

    def eval_args(self, st, F, es):
        how = []
        for n, a in enumerate(es):
            p = F.params[n] if n < len(F.params) else None
            how.append(self.lv if p and p["ref"] else self.rv)
        return self.evs(st, es, how)

    def ev_mcall(self, st, e):
        if "mv" not in e:
            self.mark_moves(e)
        F = self.prog.resolve(st.fn.tu, e) if st.fn and e.get("repo") else None
        if e.get("repo") and F is not None:
            out = []
            for s, o in self.ev(st, e["obj"]) if e.get("obj") else [(st, None)]:
                if e.get("arrow"):
                    r = self.deref(s, self.read(s, o), e)
                else:
                    r = o if isinstance(o, Ref) else self.alloc(s, o, "tmp")
                for s, args in self.eval_args(s, F, e["a"]):
                    out += self.call_fun(s, F, r, args, e)
            return out
        return stdlib.mcall(self, st, e)

    def ev_ocall(self, st, e):
        if "mv" not in e:
            self.mark_moves(e)
        F = self.prog.resolve(st.fn.tu, e) if st.fn and e.get("repo") else None
        if e.get("repo") and F is not None and not F.j.get("defaulted"):
            out = []
            if e.get("member"):
                for s, o in self.lv(st, e["a"][0]):
                    v = self.read(s, o)
                    if isinstance(v, (Closure, Overload, Func)):
                        for s, args in self.evs(s, e["a"][1:]):
                            out += self.call_value(s, v, args, e)
                        continue
                    for s, args in self.eval_args(s, F, e["a"][1:]):
                        out += self.call_fun(s, F, o, args, e)
            else:
                for s, args in self.eval_args(st, F, e["a"]):
                    out += self.call_fun(s, F, None, args, e)
            return out
        return stdlib.ocall(self, st, e)

    def ev_construct(self, st, e):
        if "mv" not in e:
            self.mark_moves(e)
        t = strip_cvref(e["t"])
        if e.get("copy") and len(e["a"]) == 1 and not (e.get("repo") and not e.get("impl")):
            return self.rv(st, e["a"][0])
        F = self.prog.resolve(st.fn.tu, e) if st.fn and e.get("repo") else None
        if e.get("repo"):
            if F is None or F.j.get("impl"):
                if not e["a"]:
                    return [(st, self.default(t, st))]
                if len(e["a"]) == 1:
                    return self.rv(st, e["a"][0])
            if F is not None:
                out = []
                for s, args in self.eval_args(st, F, e["a"]):
                    out += self.construct(s, F, t, args, e)
                return out
        return stdlib.construct(self, st, e, t)

    def construct(self, st, F, t, args, node):
        p = self.primitive(st, F, None, args, node)
        if p is not None:
            return p
        fields = {n: Top("uninit " + n) for n, _ in (self.field_types(t) or [])}
        ref = self.alloc(st, Struct(t, fields), "obj*")
        return [(s, self.read(s, ref)) for s, _ in self.call_fun(st, F, ref, args, node, ctor=True)]

    def ev_inhctor(self, st, e):
        return [(st, self.top(st, "inherited ctor"))]

    def ev_new(self, st, e):
        if not e.get("i"):
            return [(st, Ptr(self.alloc(st, self.default(e["at"], st)), "raw"))]
        return [(s, Ptr(self.alloc(s, v), "raw")) for s, v in self.rv(st, e["i"])]

    def ev_delete(self, st, e):
        return [(s, None) for s, _ in self.rv(st, e["e"])]

    def ev_stmtexpr(self, st, e):
        st.exact = False
        return [(st, self.top(st, "stmtexpr"))]

    def call_value(self, st, f, args, node, atypes=None):
        """Call a callable value. args: Refs or values."""
        if isinstance(f, Closure):
            F = self.pick_op(st, [f], args, atypes)
            if F is None:
                return [(st, self.top(st, "lambda overload"))]
            return self.call_fun(st, F[1], None, args, node, closure=f)
        if isinstance(f, Overload):
            F = self.pick_op(st, list(f.fs), args, atypes)
            if F is None:
                st.exact = False
                return [(st, self.top(st, "overloaded call"))]
            return self.call_fun(st, F[1], None, args, node, closure=F[0])
        if isinstance(f, Functor):
            return stdlib.functor(self, st, f, args, node)
        if isinstance(f, Func):
            n = f.node
            F = self.prog.resolve(f.tu, n)
            if F is not None:
                return self.call_fun(st, F, None, args, node)
            return stdlib.call_named(self, st, n["fn"], args, n)
        if isinstance(f, Struct):
            c = self.prog.call_ops(f.cls, st.fn.tu if st.fn else None)
            if atypes and len(c) > 1:
                m = [F for F in c if [strip_cvref(p["ct"]) for p in F.params] == [strip_cvref(x) for x in atypes]]
                c = m or c
            if c:
                return self.call_fun(st, c[0], self.alloc(st, f, "fo"), args, node)
        if isinstance(f, Ptr) and f.ref is not None:
            return self.call_value(st, self.read(st, f.ref), args, node, atypes)
        st.exact = False
        return [(st, self.top(st, f"call of {f!r}"[:60]))]

    def val_type(self, st, x):
        v = self.read(st, x)
        if isinstance(v, Struct):
            return v.cls
        if isinstance(v, (bool, B)):
            return "bool"
        if isinstance(v, R):
            return "num"
        if isinstance(v, Var):
            return v.ty
        if isinstance(v, Ptr) and v.ref is not None and v.ref.root[0] == "obj":
            return "std::shared_ptr<" + v.ref.root[2] + ">"
        return None

    def pick_op(self, st, closures, args, atypes):
        cands = []
        for c in closures:
            if isinstance(c, Overload):
                for d in c.fs:
                    for op in d.node["ops"]:
                        cands.append((d, op))
                continue
            for op in c.node["ops"]:
                cands.append((c, op))
        if len(cands) == 1 and not cands[0][1].get("tpl"):
            c, op = cands[0]
            F = c.tu.funcs.get(op["id"])
            return (c, F) if F else None
        if atypes is None:
            atypes = [self.val_type(st, a) for a in args]
        best = None
        for c, op in cands:
            if len(op["pt"]) != len(args):
                continue
            ok = True
            for p, a in zip(op["pt"], atypes):
                p = strip_cvref(p)
                if a is None:
                    ok = ok and len(cands) == 1
                elif a == "num":
                    ok = ok and (p in REALS or p in INTS)
                elif p != strip_cvref(a):
                    ok = False
            if not ok:
                continue
            if best is None or (best[1].get("tpl") and not op.get("tpl")):
                best = (c, op)
        if best is None:
            return None
        F = best[0].tu.funcs.get(best[1]["id"])
        return (best[0], F) if F else None

    def primitive(self, st, F, this, args, node):
        if F.key in self.noprim or F.qn in self.noprim:
            return None
        p = stdlib.PRIMS.get(F.qn)
        return p(self, st, F, this, args, node) if p else None

    def call_fun(self, st, F, this, args, node, closure=None, ctor=False):
        self.tick()
        if not ctor:
            p = self.primitive(st, F, this, args, node)
            if p is not None:
                return p
        if F.key in self.noreturn and F.key in st.stack:
            return []
        if F.key in st.stack or F.qn in self.noinline or F.key in self.noinline:
            return self.opaque_call(st, F, this, args, node)
        if len(st.stack) > 60:
            st.exact = False
            return [(st, self.top(st, "call depth"))]
        saved = (st.env, st.this, st.fn, st.stack)
        env = dict(closure.env) if closure is not None else {}
        for n, p in enumerate(F.params):
            if n < len(args):
                a = args[n]
                if p["ref"]:
                    env[p["id"]] = a if isinstance(a, Ref) else self.alloc(st, a, "tmp")
                else:
                    v = self.coerce(st, self.read(st, a), p["t"], None)
                    env[p["id"]] = self.alloc(st, v, "par")
            elif p.get("d"):
                rs = self.rv(st, p["d"])
                env[p["id"]] = self.alloc(st, rs[0][1] if len(rs) == 1 else self.top(st, "default arg"), "par")
            else:
                env[p["id"]] = self.alloc(st, self.top(st, "missing arg"), "par")
        st.env = env
        st.this = Ptr(this, "raw") if this is not None else (closure.this if closure is not None else None)
        st.fn = F
        st.stack = st.stack + (F.key,)
        self.throws.append([])
        outs = []
        states = [st]
        if ctor or F.j.get("ctor"):
            for i in F.j.get("inits", []):
                nx = []
                for s in states:
                    if "f" in i:
                        ft = dict(self.field_types(strip_cvref(F.j["clst"])) or [])
                        for s2, v in self.rv(s, i["e"]):
                            v = self.coerce(s2, v, ft.get(i["f"], ""), i["e"]) if ft.get(i["f"]) else v
                            b, a = ptype(ft.get(i["f"], ""))
                            if isinstance(v, Init):
                                v = self.init_to(s2, v, ft.get(i["f"], ""))
                            s2.cells[this.root] = self.put(s2, self.cell(s2, this.root), this.path + (i["f"],), v)
                            nx.append(s2)
                    elif i.get("deleg"):
                        for s2, v in self.rv(s, i["e"]):
                            self.write(s2, this, v)
                            nx.append(s2)
                    else:
                        for s2, _ in self.rv(s, i["e"]):
                            nx.append(s2)
                states = nx
        byref = F.j["ret"].rstrip().endswith("&")
        for s in states:
            body = F.j["b"]
            if body is None:
                outs.append((s, None))
                continue
            for s2, sig in self.exec(s, body):
                if sig is None:
                    outs.append((s2, None))
                elif sig[0] == "return":
                    outs.append((s2, sig[1]))
                else:
                    outs.append((s2, self.top(s2, "stray " + sig[0])))
        th = self.throws.pop()
        self.throws[-1] += th
        res = []
        for s, v in outs:
            s.env, s.this, s.fn, s.stack = dict(saved[0]), saved[1], saved[2], saved[3]
            if isinstance(v, Ref) and not byref:
                v = self.read(s, v)
            res.append((s, v))
        return res

    def init_to(self, st, v, t):
        b, a = ptype(strip_cvref(t))
        if b in ("std::vector", "std::deque"):
            return Seq([("item", self.coerce(st, x, a[0])) for x in v.vals], strip_cvref(a[0]), (), b)
        if len(v.vals) == 1:
            return v.vals[0]
        if not v.vals:
            return self.default(t, st)
        return v

    def opaque_call(self, st, F, this, args, node):
        terms = tuple(self.term(st, a) for a in args)
        if this is not None:
            terms = (self.term(st, this),) + terms
        self.event(st, "opaque", node, fn=F, terms=terms)
        v = self.sym(F.j["ret"], ("rec", F.qn) + terms) if strip_cvref(F.j["ret"]) != "void" else None
        return [(st, v)]

    def term(self, st, x):
        """Hashable description of an argument."""
        v = self.read(st, x)
        if isinstance(v, Var):
            return v.term if v.tag is None else ("var", v.tag, self.term(st, v.val))
        if isinstance(v, Ptr) and v.ref is not None and v.ref.root[0] == "obj" and not v.ref.path:
            return v.ref.root[1]
        if isinstance(v, R):
            a = v.single()
            return a.key if a is not None else IK(v)
        if isinstance(v, Str):
            return v.term
        if isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0][0] == "base" and not v.over:
            return v.segs[0][1]
        if isinstance(v, Seq):
            k = ("seqv", repr(v))
            self.seqterms[k] = v
            return k
        if isinstance(v, Struct):
            return ("st", v.cls) + tuple((k, self.term(st, y)) for k, y in v.f.items())
        if isinstance(v, MapV) and not v.ins:
            return v.name
        if isinstance(v, Ptr) and v.ref is not None:
            return ("ptr", self.term(st, self.read(st, v.ref)))
        return ("val", repr(v)[:200])

    # ---- statements ---------------------------------------------------------
    def exec(self, st, s):
        """-> [(state, signal)]"""
        if s is None:
            return [(st, None)]
        self.tick()
        k = s["s"]
        return getattr(self, "ex_" + k, self.ex_unknown)(st, s)

    def ex_unknown(self, st, s):
        st.exact = False
        self.top(st, "stmt " + str(s.get("cls", s["s"])))
        return [(st, None)]

    def ex_null(self, st, s):
        return [(st, None)]

    def ex_block(self, st, s):
        return self.exec_seq(st, s["b"])

    def exec_seq(self, st, stmts):
        cur = [st]
        done = []
        for x in stmts:
            nx = []
            for c in cur:
                for s2, sig in self.exec(c, x):
                    if sig is None:
                        nx.append(s2)
                    else:
                        done.append((s2, sig))
            cur = nx
            if not cur:
                break
        return done + [(c, None) for c in cur]

    def ex_expr(self, st, s):
        return [(x, None) for x, _ in self.ev(st, s["e"])]

    def ex_decl(self, st, s):
        cur = [st]
        for v in s["v"]:
            nx = []
            for c in cur:
                nx += self.declare(c, v)
            cur = nx
        return [(c, None) for c in cur]

    def declare(self, st, v, value=None):
        outs = []
        if v.get("static") and not v.get("const") and not v.get("cx"):
            self.event(st, "static", v, name=v["n"])
            st.env[v["id"]] = self.alloc(st, self.top(st, "static " + v["n"]), "static")
            return [st]
        if value is None and "i" not in v:
            if self.field_types(v["t"]) is not None or v["t"].startswith("std::"):
                st.env[v["id"]] = self.alloc(st, self.default(v["t"], st), "var")
            else:
                st.env[v["id"]] = self.alloc(st, Top("uninit " + v["n"]), "var")
            return [st]
        if value is not None:
            rs = [(st, value)]
        elif v["ref"]:
            rs = self.lv(st, v["i"])
        else:
            rs = self.rv(st, v["i"])
        for s, x in rs:
            if v["ref"]:
                r = x if isinstance(x, Ref) else self.alloc(s, x, "tmp")
            else:
                x = self.read(s, x)
                x = self.coerce(s, x, v["t"], v.get("i"))
                if isinstance(x, Init):
                    x = self.init_to(s, x, v["t"])
                r = self.alloc(s, x, "var")
            s.env[v["id"]] = r
            if v.get("binds"):
                val = self.read(s, r)
                for n, b in enumerate(v["binds"]):
                    if isinstance(val, Struct):
                        keys = list(val.f)
                        key = keys[n] if n < len(keys) else "?"
                        s.env[b["id"]] = r + key
                    else:
                        s.env[b["id"]] = self.alloc(s, self.top(s, "binding"))
            outs.append(s)
        return outs

    def ex_if(self, st, s):
        out = []
        states = [st]
        if s.get("init"):
            states = [x for x, _ in self.exec(st, s["init"])]
        if s.get("cv"):
            nx = []
            for x in states:
                nx += self.declare(x, s["cv"])
            states = nx
        for x in states:
            if s.get("cv"):
                cs = [(x, self.read(x, x.env[s["cv"]["id"]]))]
                if "val" not in s["c"]:
                    cs = self.rv(x, s["c"])
            else:
                cs = self.rv(x, s["c"])
            for y, c in cs:
                for z, b in self.truth(y, c, s["c"]):
                    out += self.exec(z, s["t"] if b else s["e"])
        return out

    def ex_return(self, st, s):
        if s["e"] is None:
            return [(st, ("return", None))]
        rt = st.fn.j["ret"] if st.fn else ""
        if rt.rstrip().endswith("&"):
            return [(x, ("return", v)) for x, v in self.lv(st, s["e"])]
        out = []
        for x, v in self.rv(st, s["e"]):
            v = self.coerce(x, v, rt, s["e"])
            if isinstance(v, Init):
                v = self.init_to(x, v, rt)
            out.append((x, ("return", v)))
        return out

    def ex_break(self, st, s):
        return [(st, ("break",))]

    def ex_continue(self, st, s):
        return [(st, ("continue",))]

    def ex_case(self, st, s):
        return self.exec(st, s["b"])

    def ex_default(self, st, s):
        return self.exec(st, s["b"])

    def ex_switch(self, st, s):
        out = []
        states = [st]
        if s.get("init"):
            states = [x for x, _ in self.exec(st, s["init"])]
        body = s["b"]["b"] if s["b"] and s["b"]["s"] == "block" else [s["b"]]
        flat = []          # ('case', expr) / ('default',) / ('stmt', node)

        def flatten(x):
            if x is None:
                return
            if x["s"] == "case":
                flat.append(("case", x["c"]))
                flatten(x["b"])
            elif x["s"] == "default":
                flat.append(("default",))
                flatten(x["b"])
            else:
                flat.append(("stmt", x))
        for x in body:
            flatten(x)
        for x in states:
            for y, c in self.rv(x, s["c"]):
                pend = [y]
                starts = []
                for n, it in enumerate(flat):
                    if it[0] != "case":
                        continue
                    nx = []
                    for p in pend:
                        for q, cv in self.rv(p, it[1]):
                            for z, b in self.eq(q, c, cv, s):
                                (starts.append((z, n)) if b else nx.append(z))
                    pend = nx
                dn = next((n for n, it in enumerate(flat) if it[0] == "default"), None)
                for p in pend:
                    if isinstance(c, En) and not isinstance(c.val, str) and p.ens.get(c.val) == ():
                        continue
                    if dn is not None:
                        starts.append((p, dn))
                    else:
                        out.append((p, None))
                for z, n in starts:
                    for r, sig in self.exec_seq(z, [it[1] for it in flat[n:] if it[0] == "stmt"]):
                        out.append((r, None if sig == ("break",) else sig))
        return out

    def ex_try(self, st, s):
        env = dict(st.env)
        this, fn, stack = st.this, st.fn, st.stack
        self.throws.append([])
        out = self.exec(st, s["b"])
        th = self.throws.pop()
        for z, exc, line, f in th:
            handled = False
            for h in s["h"]:
                if stdlib.catches(self, h["t"], exc):
                    self.event(z, "catch", h, exc=exc, htype=h["t"])
                    z.env, z.this, z.fn, z.stack = dict(env), this, fn, stack
                    if h.get("v"):
                        z.env[h["v"]["id"]] = self.alloc(z, exc, "exc")
                    self.throws.append([])
                    out += self.exec(z, h["b"])
                    for t2 in self.throws.pop():
                        self.throws[-1].append((t2[0], exc if t2[1].ty == "rethrow" else t2[1], t2[2], t2[3]))
                    handled = True
                    break
            if not handled:
                self.throws[-1].append((z, exc, line, f))
        return out

    # ---- loops --------------------------------------------------------------
    def ex_while(self, st, s):
        def cond(x):
            out = []
            if s.get("cv"):
                for y in self.declare(x, s["cv"]):
                    for z, c in self.rv(y, s["c"]):
                        out += self.truth(z, c, s["c"])
                return out
            for y, c in self.rv(x, s["c"]):
                out += self.truth(y, c, s["c"])
            return out
        return self.loop(st, cond, lambda x: self.exec(x, s["b"]), lambda x: [x], s)

    def ex_do(self, st, s):
        def cond(x):
            out = []
            for y, c in self.rv(x, s["c"]):
                out += self.truth(y, c, s["c"])
            return out
        out = []
        for x, sig in self.exec(st, s["b"]):
            if sig is None or sig == ("continue",):
                out += self.loop(x, cond, lambda x: self.exec(x, s["b"]), lambda x: [x], s)
            elif sig == ("break",):
                out.append((x, None))
            else:
                out.append((x, sig))
        return out

    def ex_for(self, st, s):
        def cond(x):
            if s["c"] is None:
                return [(x, True)]
            out = []
            for y, c in self.rv(x, s["c"]):
                out += self.truth(y, c, s["c"])
            return out

        def inc(x):
            return [y for y, _ in self.ev(x, s["inc"])] if s["inc"] else [x]
        out = []
        for x, _ in self.exec(st, s["init"]):
            out += self.loop(x, cond, lambda x: self.exec(x, s["b"]), inc, s)
        return out

    def range_of(self, st, ref, node):
        """-> [(state, begin It, end It)] or None"""
        v = self.read(st, ref)
        if isinstance(v, (Seq, Init, MapV)):
            return [(st, It(ref, ZERO), It(ref, self.seq_len(v)))]
        if isinstance(v, Struct):
            b = self.prog.by_qn.get(v.cls + "::begin")
            e = self.prog.by_qn.get(v.cls + "::end")
            if b and e:
                out = []
                for s, x in self.call_fun(st, b[0], ref, [], node):
                    for s, y in self.call_fun(s, e[0], ref, [], node):
                        if isinstance(x, It) and isinstance(y, It):
                            out.append((s, x, y))
                        else:
                            return None
                return out
        return None

    def ex_rangefor(self, st, s):
        out = []
        states = [st]
        if s.get("init"):
            states = [x for x, _ in self.exec(st, s["init"])]
        for x in states:
            for y, ref in self.lv(x, s["range"]):
                rs = self.range_of(y, ref, s)
                if rs is None:
                    y.exact = False
                    self.top(y, "range-for over unknown")
                    self.havoc(y)
                    out.append((y, None))
                    continue
                for z, b, e in rs:
                    out += self.iterate(z, b, e, s, lambda w, it: self.range_body(w, it, s))
        return out

    def range_body(self, st, it, s):
        ref = self.it_ref(st, it, s)
        v = s["v"]
        out = []
        c = self.read(st, it.ref)
        for w in self.declare(st, v, ref if v["ref"] else self.read(st, ref)):
            out += self.exec(w, s["b"])
        return out

    def iterate(self, st, b, e, node, body):
        """Loop an implicit iterator from b to e; body(state, it) -> [(state, signal)]"""
        cell = self.alloc(st, b, "it")

        def cond(x):
            return [(s, not r) for s, r in self.eq(x, self.read(x, cell), e, node)]

        def inc(x):
            self.write(x, cell, self.it_add(x, self.read(x, cell), ONE_R))
            return [x]
        return self.loop(st, cond, lambda x: body(x, self.read(x, cell)), inc, node)

    def havoc(self, st):
        for r in list(st.cells):
            if r[0] not in ("obj", "in"):
                st.cells[r] = Top("havoc")

    # leaf decomposition of values
    def leaves(self, v, path=()):
        if isinstance(v, Struct):
            for k, x in v.f.items():
                yield from self.leaves(x, path + (k,))
        elif isinstance(v, It):
            yield path + ("#pos",), v.pos
        elif isinstance(v, Opt):
            yield path + ("#has",), v.has
            yield path + ("#val",), v.val
        else:
            yield path, v

    def set_leaf(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p == "#pos":
            return It(v.ref, x, v.rev)
        if p == "#has":
            return Opt(x, v.val)
        if p == "#val":
            return Opt(v.has, self.set_leaf(v.val, path[1:], x) if path[1:] else x)
        return v.with_(p, self.set_leaf(v.f[p], path[1:], x))

    def get_leaf(self, st, loc):
        v = st.cells.get(loc[0])
        if v is None:
            return None
        for p in loc[1]:
            if p == "#pos":
                v = v.pos if isinstance(v, It) else None
            elif p == "#has":
                v = v.has if isinstance(v, Opt) else None
            elif p == "#val":
                v = v.val if isinstance(v, Opt) else None
            else:
                v = v.f.get(p) if isinstance(v, Struct) else None
            if v is None:
                return None
        return v

    def shape(self, v):
        return tuple(p for p, _ in self.leaves(v))

    def tag(self, v):
        if isinstance(v, Seq):
            return "E" if not v.segs else "N"
        if isinstance(v, bool):
            return v
        if isinstance(v, En) and isinstance(v.val, str):
            return v.val
        if isinstance(v, Ptr):
            return "null" if v.ref is None else "ptr"
        if isinstance(v, Var):
            return ("v", v.tag)
        return None

    def loop(self, st, cond, body, inc, node):
        from loops import run_loop
        return run_loop(self, st, cond, body, inc, node)
