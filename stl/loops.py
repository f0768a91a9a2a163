"""Loop analysis: the state before the loop is one head partition of its own; the
states flowing back are partitioned by the discrete parts of what the body changes
(empty/non-empty sequences, enumerators, booleans, null pointers). Every changed
location of a partition becomes either a linear function of the hidden iteration
counter k or a fresh symbol (phi); relations between them are guessed from
templates and kept only if every edge into the partition re-establishes them."""
from terms import R, atom, elem, ATOMS, ZERO, ONE_R, IK, Budget
from values import *
from model import ptype, strip_cvref


class GiveUp(Exception):
    pass


class Part:
    def __init__(self, sig, n):
        self.sig, self.n = sig, n
        self.inc = []        # incoming edges: (src, k value before, state)
        self.leaves = {}     # loc -> value in the head state
        self.cands = None


def is_local(root, pre):
    return root in pre.cells


RECORD = False  # remember the iterations of unrolled loops
UNROLL = 0      # > 0: only executions with at most that many iterations of a loop, without invariants


def unrolled(eng, st, cond, body, inc, node):
    """Exact states of the executions that leave the loop after at most UNROLL iterations."""
    L = None
    if RECORD and eng.rec:
        from engine import LoopRec, Edge
        L = LoopRec(eng.fresh("L")[1], None, node, st.fn)
        eng.loops[L.uid] = L
    states, out, n = [st], [], 0
    for rounds in range(12):
        if n > UNROLL:
            break
        nx, sure = [], True
        for s in states:
            h, first = s.copy() if L is not None else None, len(nx)
            cs = definite(eng, s, cond)
            if cs is None:
                sure = False
                cs = cond(s)
            for s2, b in cs:
                if not b:
                    out.append((s2, None))
                    continue
                for s3, sig in body(s2):
                    if sig is None or sig == ("continue",):
                        nx += inc(s3)
                    elif sig == ("break",):
                        out.append((s3, None))
                    else:
                        out.append((s3, sig))
            if L is not None:
                L.edges += [Edge("n", "n", h, x.copy()) for x in nx[first:]]
        n += not sure
        states = [s for s in nx if not s.facts.unsat()]
        if not states:
            break
    return out


def run_loop(eng, st, cond, body, inc, node):
    if UNROLL:
        return unrolled(eng, st, cond, body, inc, node)
    # loops with a constant number of iterations are simply unrolled
    states, out = [st], []
    for _ in range(9):
        nx = []
        for s in states:
            cs = definite(eng, s, cond)
            if cs is None:
                out += general(eng, s, cond, body, inc, node)
                continue
            for s2, b in cs:
                if not b:
                    out.append((s2, None))
                    continue
                for s3, sig in body(s2):
                    if sig is None or sig == ("continue",):
                        nx += inc(s3)
                    elif sig == ("break",):
                        out.append((s3, None))
                    else:
                        out.append((s3, sig))
        states = nx
        if not states:
            return out
    for s in states:
        out += general(eng, s, cond, body, inc, node)
    return out


def definite(eng, st, cond):
    """Outcome of the condition if it only compares constants."""
    t = st.copy()
    rec, eng.rec = eng.rec, False
    nth = len(eng.throws[-1])
    old, eng.nonconst = eng.nonconst, False
    try:
        cs = cond(t)
        ok = len(cs) == 1 and not eng.nonconst
    finally:
        eng.rec = rec
        del eng.throws[-1][nth:]
        eng.nonconst = old
    if not ok:
        return None
    return cond(st)


def changed(eng, a, b):
    """Locations (root, leaf path) whose value differs; a: earlier state, b: later."""
    out = []
    for root in b.cells:
        vb = b.cells[root]
        if root in a.cells:
            va = a.cells[root]
        elif root[0] == "obj":
            va = eng.sym(root[2], root[1])
        else:
            continue
        if va is vb:
            continue
        diff(eng, va, vb, root, (), out)
    return out


def diff(eng, va, vb, root, path, out):
    if va is vb or va == vb:
        return
    if isinstance(va, Struct) and isinstance(vb, Struct) and va.f.keys() == vb.f.keys():
        for k in va.f:
            diff(eng, va.f[k], vb.f[k], root, path + (k,), out)
        return
    if isinstance(va, It) and isinstance(vb, It) and va.ref == vb.ref and va.rev == vb.rev:
        out.append((root, path + ("#pos",)))
        return
    if isinstance(va, Opt) and isinstance(vb, Opt):
        if va.has != vb.has:
            out.append((root, path + ("#has",)))
            out.append((root, path + ("#val",)))
        else:
            diff(eng, va.val, vb.val, root, path + ("#val",), out)
        return
    out.append((root, path))


def getloc(eng, st, loc):
    if loc[0] not in st.cells and loc[0][0] == "obj":
        st.cells[loc[0]] = eng.sym(loc[0][2], loc[0][1])
    v = st.cells.get(loc[0])
    for p in loc[1]:
        if p == "#pos":
            v = v.pos if isinstance(v, It) else None
        elif p == "#has":
            v = v.has if isinstance(v, Opt) else None
        elif p == "#val":
            v = v.val if isinstance(v, Opt) else None
        else:
            v = v.f.get(p) if isinstance(v, Struct) else None
        if v is None:
            return None
    return v


def setloc(eng, st, loc, x):
    st.cells[loc[0]] = eng.set_leaf(st.cells[loc[0]], loc[1], x)


def tag(v):
    if isinstance(v, Seq):
        return "E" if not v.segs else "N"
    if isinstance(v, bool):
        return "T" if v else "F"
    if isinstance(v, En):
        return v.val if isinstance(v.val, str) else "en"
    if isinstance(v, Ptr):
        return "null" if v.ref is None else "ptr"
    if isinstance(v, Var):
        return ("v", v.tag) if v.tag is not None else "v"
    if v is None:
        return "none"
    return type(v).__name__


def general(eng, st, cond, body, inc, node):
    if eng.depth > 3:
        raise GiveUp()
    eng.depth += 1
    try:
        return general_(eng, st, cond, body, inc, node)
    finally:
        eng.depth -= 1


def one_pass(eng, head, cond, body, inc):
    """One iteration from a head state -> (exits, backs). exits: (state, signal, kind)."""
    exits, backs = [], []
    for s, b in cond(head):
        if not b:
            exits.append((s, None, "cond"))
            continue
        for s2, sig in body(s):
            if sig is None or sig == ("continue",):
                backs += inc(s2)
            elif sig == ("break",):
                exits.append((s2, None, "break"))
            else:
                exits.append((s2, sig, "return"))
    return exits, backs


def general_(eng, st, cond, body, inc, node):
    from engine import LoopRec, Edge
    uid = eng.fresh("L")[1]
    K = R.a(atom(("k", uid), "i"))
    pre = st
    outer_rec = eng.rec
    try:
        parts, C, kform = infer(eng, pre, uid, K, cond, body, inc)
    except GiveUp:
        eng.rec = outer_rec
        return give_up(eng, pre, cond, body, inc, node)
    finally:
        eng.rec = outer_rec
    # final pass: record events, edges and exits
    L = LoopRec(uid, pre.copy(), node, st.fn)
    L.k = K
    L.stack = st.stack
    L.parts = parts
    L.changed = C
    if outer_rec:
        eng.loops[uid] = L
    out = []
    h = pre.copy()
    h.loops = h.loops + ((uid, "pre"),)
    h0 = h.copy()
    ex, backs = one_pass(eng, h, cond, body, inc)
    finish(eng, L, "pre", h0, ex, backs, out, pre, parts, C)
    for P in parts.values():
        h = head_state(eng, pre, P, uid, K)
        h.loops = h.loops + ((uid, P.sig),)
        h0 = h.copy()
        P.head = h0
        ex, backs = one_pass(eng, h, cond, body, inc)
        finish(eng, L, P.sig, h0, ex, backs, out, pre, parts, C)
    return out


def finish(eng, L, src, h0, ex, backs, out, pre, parts, C):
    for s, sig, kind in ex:
        L.exits.append((src, s.copy(), sig, kind))
        s.loops = pre.loops
        for c in C:
            v = getloc(eng, s, c)
            if isinstance(v, Seq) and not v.over and any(x[0] == "splice" for x in v.segs):
                n = norm_segs(eng, s, v.segs, v.et)
                if n != v.segs:
                    setloc(eng, s, c, Seq(n, v.et, (), v.kind))
        out.append((s, sig))
    from engine import Edge
    for s in backs:
        if s.facts.unsat():
            continue
        L.edges.append(Edge(src, sig_of(eng, s, C), h0, s))


def sig_of(eng, s, C):
    return tuple(tag(getloc(eng, s, c)) for c in C)


def give_up(eng, pre, cond, body, inc, node):
    """No invariant found: forget everything the loop may change."""
    eng.gaveup += 1
    rec, eng.rec = eng.rec, False
    nth = len(eng.throws[-1])
    C = []
    try:
        ex, backs = one_pass(eng, pre.copy(), cond, body, inc)
        for b in backs:
            for c in changed(eng, pre, b):
                if c not in C:
                    C.append(c)
    finally:
        eng.rec = rec
        del eng.throws[-1][nth:]
    out = []
    for s, b in cond(pre.copy()):
        if not b:
            out.append((s, None))
    h = pre.copy()
    for c in C:
        if c[0] in h.cells:
            setloc(eng, h, c, eng.top(h, "loop"))
    h.exact = False
    th = len(eng.throws[-1])
    ex, backs = one_pass(eng, h.copy(), cond, body, inc)
    for t in eng.throws[-1][th:]:
        t[0].exact = False
    for s, sig, kind in ex:
        s.exact = False
        out.append((s, sig))
    return out


MAXPARTS = 14
MAXPASS = 14


def infer(eng, pre, uid, K, cond, body, inc):
    eng.rec = False
    nth = len(eng.throws[-1])

    def iteration(h):
        ex, backs = one_pass(eng, h, cond, body, inc)
        del eng.throws[-1][nth:]
        return [b for b in backs if not b.facts.unsat()]

    first = iteration(pre.copy())
    C = []
    for b in first:
        for c in changed(eng, pre, b):
            if c not in C:
                C.append(c)
    prefix_free(C)
    demoted = set()      # locations that are not linear in k
    for attempt in range(8):
        parts = {}
        res = fixpoint(eng, pre, uid, K, C, demoted, first, parts, iteration)
        if res is None:
            return parts, C, None
        # new changed locations or demotions: restart
    raise GiveUp()


def prefix_free(C):
    for c in list(C):
        for d in list(C):
            if c is not d and c[0] == d[0] and d[1][:len(c[1])] == c[1] and d in C and len(d[1]) > len(c[1]):
                C.remove(d)


def kform_value(eng, pre, first, c, K):
    v0 = getloc(eng, pre, c)
    if isinstance(v0, Seq):
        return copy_form(eng, first, c, v0, K)
    if not isinstance(v0, R):
        return None
    step = None
    for b in first:
        v1 = getloc(eng, b, c)
        if not isinstance(v1, R):
            return None
        d = v1 - v0
        if step is None:
            step = d
        elif not (step == d):
            return None
    if step is None:
        return None
    c0 = step.const()
    if c0 is None or c0 == 0:
        return None
    return v0 + step * K


def elem_of(x):
    """(sequence name, index) of a value that is an element of a named sequence."""
    t = x.ref.root[1] if isinstance(x, Ptr) and x.ref is not None and len(x.ref.root) > 1 and not x.ref.path else getattr(x, "term", None)
    if isinstance(x, Struct):
        for y in x.f.values():
            t = getattr(y, "term", None)
            if isinstance(t, tuple) and t[0] == "fld":
                t = t[1]
                break
    if isinstance(t, tuple) and len(t) == 3 and t[0] == "el":
        return t[1], t[2].r
    return None


def norm_segs(eng, st, segs, et, items=False):
    """Adjacent parts of one sequence joined; a whole sequence as such. items: single elements as parts, too."""
    if items:
        el = [(elem_of(s[1]) if s[0] == "item" else None) for s in segs]
        segs = [("splice", e[0], e[1], e[1] + ONE_R) if e is not None and e[1] is not None and eng.sym_elem(et, e[0], e[1]) == s[1]
                else s for s, e in zip(segs, el)]
    out = []
    eq = lambda a, b: (a - b).const() == 0 or st.facts.entails("==", a - b)
    for s in segs:
        if s[0] == "item":
            e = elem_of(s[1])
            if e is not None and e[1] is not None:
                p = out[-1] if out else None
                if p is not None and p[0] == "splice" and p[1] == e[0] and eq(p[3], e[1]) \
                        and eng.sym_elem(et, e[0], e[1]) == s[1]:
                    out[-1] = p[:3] + (e[1] + ONE_R,) + p[4:]
                    continue
        elif s[0] == "splice":
            if eq(s[2], s[3]):
                continue
            p = out[-1] if out else None
            if p is not None and p[0] == "splice" and p[1] == s[1] and eq(p[3], s[2]):
                out[-1] = p[:3] + (s[3],) + p[4:]
                continue
            e = elem_of(p[1]) if p is not None and p[0] == "item" else None
            if e is not None and e[1] is not None and e[0] == s[1] and eq(e[1] + ONE_R, s[2]) \
                    and eng.sym_elem(et, e[0], e[1]) == p[1]:
                out[-1] = ("splice", s[1], e[1], s[3]) + s[4:]
                continue
        out.append(s)
    for n, s in enumerate(out):
        if s[0] == "splice" and eq(s[2], R.c(0)) and eq(s[3], eng.size(s[1])):
            out[n] = ("base", s[1])
    return tuple(out)


def copy_form(eng, first, c, v0, K):
    """A loop that appends element i of one sequence in its i-th iteration."""
    if v0.over or v0.et == "signal_tl::signal::Sample":
        return None
    hit = None
    for b in first:
        v1 = getloc(eng, b, c)
        if not isinstance(v1, Seq) or v1.over or len(v1.segs) != len(v0.segs) + 1 or v1.segs[:-1] != v0.segs or v1.segs[-1][0] != "item":
            return None
        e = elem_of(v1.segs[-1][1])
        if e is None or e[1] is None or hit not in (None, e):
            return None
        if eng.sym_elem(v0.et, e[0], e[1]) != v1.segs[-1][1]:
            return None
        hit = e
    if hit is None:
        return None
    return Seq(v0.segs + (("splice", hit[0], hit[1], hit[1] + K),), v0.et, (), v0.kind)


def form_holds(eng, b, v, f, kv, uid):
    if isinstance(f, Seq):
        if not isinstance(v, Seq) or v.over:
            return False
        p = f.segs[-1]
        want = f.segs[:-1] + (p[:3] + (p[3].subst(lambda a: kv if a.key == ("k", uid) else None),),)
        x, y = norm_segs(eng, b, v.segs, v.et, True), norm_segs(eng, b, want, v.et, True)
        return len(x) == len(y) and all(same_seg(b, s, t) for s, t in zip(x, y))
    want = f.subst(lambda a: kv if a.key == ("k", uid) else None)
    return isinstance(v, R) and (v == want or b.facts.entails("==", v - want))


def same_seg(st, s, t):
    if s == t:
        return True
    return s[0] == t[0] == "splice" and s[1] == t[1] and all(st.facts.entails("==", a - b) for a, b in zip(s[2:4], t[2:4]))


def fixpoint(eng, pre, uid, K, C, demoted, first, parts, iteration):
    """Returns None when stable, else True after adding to C / demoted."""
    kf = {}
    for c in C:
        if c in demoted:
            continue
        v = kform_value(eng, pre, first, c, K)
        if v is None:
            demoted.add(c)
        else:
            kf[c] = v

    def flow(src, backs):
        again = False
        for b in backs:
            for c in changed(eng, pre, b):
                if not any(c[0] == d[0] and c[1][:len(d[1])] == d[1] for d in C):
                    C.append(c)
                    again = True
        if again:
            prefix_free(C)
            return True
        for b in backs:
            sg = sig_of(eng, b, C)
            P = parts.get(sg)
            if P is None:
                if len(parts) >= MAXPARTS:
                    raise GiveUp()
                P = parts[sg] = Part(sg, len(parts))
            P.inc.append((src, b))
        return False

    if flow("pre", first):
        return True
    done = {}
    stable = False
    npass = 0
    while not stable:
        npass += 1
        if npass > MAXPASS:
            raise GiveUp()
        stable = True
        # drop old non-pre edges and recompute
        for P in parts.values():
            P.inc = [e for e in P.inc if e[0] == "pre"]
        n0 = len(parts)
        for P in list(parts.values()):
            build_leaves(eng, pre, P, uid, K, C, kf)
        for P in list(parts.values()):
            h = head_state(eng, pre, P, uid, K)
            backs = iteration(h)
            if P.cands is None or any(c for c in ()):
                pass
            P.backs = backs
            if flow(P.sig, backs):
                return True
        if len(parts) != n0:
            stable = False
            for P in parts.values():
                build_leaves(eng, pre, P, uid, K, C, kf)
        # constants really constant?
        for P in parts.values():
            for c, v in list(P.leaves.items()):
                if c in kf or not const_like(v):
                    continue
                vals = [getloc(eng, b, c) for _, b in P.inc]
                if any(x != v for x in vals):
                    P.leaves[c] = phi_value(eng, vals, phi_name(uid, P, c), c, pre)
                    P.cands = None
                    stable = False
        # linear forms really linear?
        for P in parts.values():
            for src, b in P.inc:
                kv = ONE_R if src == "pre" else K + ONE_R
                for c, f in kf.items():
                    v = getloc(eng, b, c)
                    if not form_holds(eng, b, v, f, kv, uid):
                        demoted.add(c)
                        return True
        # candidate relations
        for P in parts.values():
            if P.cands is None:
                P.cands = [c for c in candidates(eng, pre, P, uid, K) if holds_on(eng, P, c, uid, only="pre")]
                P.cands = reduce_cands(P.cands)
                stable = False
                continue
            keep = [c for c in P.cands if holds_on(eng, P, c, uid)]
            if len(keep) != len(P.cands):
                stable = False
                P.cands = keep
    return None


def reduce_cands(cs):
    seen, out = set(), []
    for rel, r in cs:
        k = (rel, r.key())
        if k not in seen and r.const() is None:
            seen.add(k)
            out.append((rel, r))
    eq = {r.key() for rel, r in out if rel == "=="}
    lt = {r.key() for rel, r in out if rel == "<"}
    res = []
    for rel, r in out:
        if rel == "<=" and (r.key() in eq or (-r).key() in eq or r.key() in lt):
            # kept out only while the stronger one survives; put it last so that it is cheap
            res.append((rel, r))
        else:
            res.insert(0, (rel, r))
    return res


def phi_name(uid, P, c):
    return ("phi", uid, P.n, c)


def build_leaves(eng, pre, P, uid, K, C, kf):
    """Values of the changed locations in the head state of partition P."""
    if not P.inc:
        return
    for c in C:
        if c in P.leaves and c in kf:
            continue
        vals = [getloc(eng, b, c) for _, b in P.inc]
        v0 = vals[0]
        if c in kf:
            P.leaves[c] = kf[c]
            continue
        if c in P.leaves and not const_like(P.leaves[c]):
            continue
        # constant on this partition?
        if const_like(v0) and all(v == v0 for v in vals):
            if c not in P.leaves or P.leaves[c] == v0:
                P.leaves[c] = v0
                continue
        nm = phi_name(uid, P, c)
        P.leaves[c] = phi_value(eng, vals, nm, c, pre)
        P.cands = None


def const_like(v):
    if isinstance(v, R):
        return v.const() is not None
    if isinstance(v, (bool,)) or v is None:
        return True
    if isinstance(v, En):
        return isinstance(v.val, str)
    if isinstance(v, Seq):
        return not v.segs
    if isinstance(v, Str):
        return v.term[0] == "lit"
    if isinstance(v, Ptr):
        return v.ref is None or v.ref.root[0] == "obj" and v.ref.root[1][:1] != ("phi",)
    if isinstance(v, Opt):
        return v.has is False
    return False


def phi_value(eng, vals, nm, c, pre):
    kinds = {type(v) for v in vals}
    v0 = vals[0]
    if len(kinds) > 1:
        if kinds <= {bool, B}:
            return B(nm)
        return Top("mixed loop value")
    if isinstance(v0, R):
        isint = all(v.is_int() for v in vals)
        return R.a(atom(nm, "i" if isint else "r"))
    if isinstance(v0, (bool, B)):
        return B(nm)
    if isinstance(v0, En):
        return En(v0.en, nm)
    if isinstance(v0, Str):
        return Str(nm)
    if isinstance(v0, Seq):
        root, path = c
        if path:
            w = pre.cells.get(root)
            for p in path[:-1]:
                w = w.f.get(p) if isinstance(w, Struct) else None
            if isinstance(w, Struct) and w.cls == "signal_tl::signal::Signal":
                eng.sorted_seqs.add(nm)
        return Seq([("base", nm)], v0.et, (), v0.kind)
    if isinstance(v0, Ptr):
        t = None
        for v in vals:
            if v.ref is None:
                return Top("pointer may be null")
            x = ptr_type(eng, v)
            if x is None or (t is not None and x != t):
                return Top("pointer target")
            t = x
        return Ptr(Ref(("obj", nm, t)), v0.own)
    if isinstance(v0, Var):
        return Var(v0.ty, nm, v0.tag if all(v.tag == v0.tag for v in vals) and v0.tag is not None else None,
                   eng.sym(eng.var_alts(v0)[v0.tag], ("alt", nm, v0.tag)) if v0.tag is not None else None)
    if isinstance(v0, MapV):
        return MapV(nm, (), v0.kt, v0.vt)
    if isinstance(v0, Opq):
        return Opq(v0.ty, nm)
    return Top("loop value")


def ptr_type(eng, p):
    if p.ref.root[0] == "obj" and not p.ref.path:
        return p.ref.root[2]
    return eng.ptr_cls.get(p.ref.root)


def head_state(eng, pre, P, uid, K):
    h = pre.copy()
    for c, v in P.leaves.items():
        if c[0] not in h.cells and c[0][0] == "obj":
            h.cells[c[0]] = eng.sym(c[0][2], c[0][1])
        setloc(eng, h, c, v)
    h.facts.add("<=", ONE_R - K)
    for rel, r in P.cands or ():
        h.facts.add(rel, r)
    return h


# ---- candidate relations ---------------------------------------------------------------
def candidates(eng, pre, P, uid, K):
    ints, reals, seqs, its = [], [], [], []
    for c, v in P.leaves.items():
        if isinstance(v, R):
            (ints if v.is_int() else reals).append((c, v))
            if c[1] and c[1][-1] == "#pos":
                its.append((c, v))
        elif isinstance(v, Seq) and v.segs:
            seqs.append((c, v))
    out = []
    sample_h = None
    h = head_state(eng, pre, P, uid, K)
    # index bounds
    for c, v in ints:
        v0 = getloc(eng, pre, c)
        out.append(("<=", -v))
        if isinstance(v0, R) and v.const() is None:
            out += [("<=", v0 - v), ("<=", v - v0)]
        if v.single() is not None and v.single().key != ("k", uid):
            out += [("<=", v - K), ("==", v - K), ("<=", ONE_R - v)]
            if isinstance(v0, R):
                out += [("==", v - v0 - K), ("<=", v - v0 - K)]
    for c, v in its:
        it = getloc(eng, h, (c[0], c[1][:-1]))
        if isinstance(it, It):
            cont = eng.read(h, it.ref)
            if isinstance(cont, (Seq, MapV)):
                n = eng.seq_len(cont)
                out += [("<=", v - n), ("<=", v - n + ONE_R), ("<=", -v - ONE_R), ("<=", ONE_R - v), ("<=", -v)]
    allints = [v for _, v in ints if v.const() is None]
    for q in invariant_ints(eng, pre, P, uid):
        for v in allints:
            out += [("<=", v - q), ("<=", q - v)]
    sizes = [(c, v, eng.seq_len(v)) for c, v in seqs]
    for c, v, n in sizes:
        v0 = getloc(eng, pre, c)
        n0 = eng.seq_len(v0) if isinstance(v0, Seq) else ZERO
        out += [("<=", ONE_R - n), ("==", n - n0 - K), ("<=", n - n0 - K), ("<=", n0 - n), ("==", n - n0)]
        for i in allints:
            for d in (-1, 0, 1):
                out.append(("==", n - i + R.c(d)))
    for i in range(len(allints)):
        for j in range(i + 1, len(allints)):
            a, b = allints[i], allints[j]
            if (a - b).const() is None:
                out += [("==", a - b), ("<=", a - b), ("<=", b - a), ("==", a + b - first_sum(eng, pre, P, a, b))]
    for i in range(len(sizes)):
        for j in range(i + 1, len(sizes)):
            out += [("==", sizes[i][2] - sizes[j][2]), ("<=", sizes[i][2] - sizes[j][2]),
                    ("<=", sizes[j][2] - sizes[i][2])]
    # order of times and values
    T = time_terms(eng, pre, P, uid)
    Lt, Lv = [], []
    for c, v in seqs:
        n = eng.seq_len(v)
        if len(v.segs) == 1 and v.segs[0][0] == "base" and v.et == "signal_tl::signal::Sample":
            last = eng.seq_get(h, v, n - ONE_R)
            Lt.append(last.f["time"])
            Lv.append(last.f["value"])
        elif strip_cvref(v.et) == "double" and len(v.segs) == 1 and v.segs[0][0] == "base":
            Lv.append(eng.seq_get(h, v, n - ONE_R))
    Q = invariant_reals(eng, pre, P)
    out += previous_facts(eng, P, uid)
    for l in Lt:
        for t in T:
            out += [("<", l - t), ("<=", l - t), ("==", l - t), ("<", t - l), ("<=", t - l)]
        for q in Q:
            out += [("<=", q - l), ("<=", l - q), ("<", l - q), ("==", l - q)]
    for i in range(len(Lt)):
        for j in range(i + 1, len(Lt)):
            out += [("==", Lt[i] - Lt[j])]
    for t in T:
        for q in Q:
            out += [("<", t - q), ("<=", t - q), ("<=", q - t), ("<", q - t)]
    for i in range(len(T)):
        for j in range(len(T)):
            if i != j:
                a, b = T[i].single(), T[j].single()
                if a.info[0] != b.info[0]:
                    out += [("<", T[i] - T[j]), ("<=", T[i] - T[j])]
    for c, v in reals:
        v0 = getloc(eng, pre, c)
        if isinstance(v0, R):
            out += [("<=", v - v0), ("<=", v0 - v)]
        for l in Lv:
            out += [("==", v - l)]
        for l in Lt:
            out += [("==", v - l)]
        for t in T:
            out += [("==", v - t), ("<", v - t), ("<=", v - t), ("<=", t - v), ("<", t - v)]
        for q in Q:
            out += [("<=", v - q), ("<=", q - v), ("<", v - q), ("<", q - v)]
    return out


def previous_facts(eng, P, uid):
    """What the incoming edges know about the values at the current position, said of the previous one."""
    k = atom(("k", uid), "i").n
    mine = set()
    for v in P.leaves.values():
        if isinstance(v, R):
            mine |= v.atoms()
    mine.discard(k)
    out = {}
    for src, b in P.inc:
        if src == "pre":
            continue
        for rel, r in b.facts.items:
            ats = [ATOMS[x] for x in r.atoms()]
            if rel not in ("<=", "<") or len(ats) != 2 or r.den != ONE_R.den or any(a.n in mine for a in ats):
                continue
            m = {}
            for a in ats:
                if a.key[0] == "elem" and a.key[3] == "value" and k in a.info[1].atoms():
                    if a.info[0][:2] == ("phi", uid):
                        m = {}
                        break
                    m[a.n] = elem(a.info[0], a.info[1].subst(lambda y: R.a(y) - ONE_R if y.n == k else None), "value")
                elif a.key[0] in ("elem", "k", "size", "phi") and (a.key[0] != "elem" or a.info[1].atoms() or a.info[0][:2] == ("phi", uid)):
                    m = {}
                    break
            if not m:
                continue
            x = r.subst(lambda a: m.get(a.n))
            for q in (rel, "<="):
                out[(q, x.key())] = (q, x)
    return list(out.values())[:12]


def first_sum(eng, pre, P, a, b):
    """Value of a+b on the first incoming edge if constant, else 0."""
    return ZERO


def loop_ints(P, uid):
    ids = set()
    for c, v in P.leaves.items():
        if isinstance(v, R):
            for x in v.atoms():
                if ATOMS[x].kind == "i":
                    ids.add(x)
    ids.add(atom(("k", uid), "i").n)
    return ids


def time_terms(eng, pre, P, uid):
    """Times of elements at the positions the body looks at (and one before)."""
    ids = loop_ints(P, uid)
    found = {}
    backs = getattr(P, "backs", [])
    for b in backs:
        for rel, r in b.facts.items:
            for x in r.atoms():
                a = ATOMS[x]
                if a.key[0] == "elem" and a.key[3] == "time" and a.info[1].atoms() & ids:
                    found[(a.info[0], IK(a.info[1]))] = a.info
        for c in P.leaves:
            v = getloc(eng, b, c)
            if isinstance(v, Seq):
                for s in v.segs:
                    if s[0] == "item" and isinstance(s[1], Struct) and isinstance(s[1].f.get("time"), R):
                        for x in s[1].f["time"].atoms():
                            a = ATOMS[x]
                            if a.key[0] == "elem" and a.key[3] == "time" and a.info[1].atoms() & ids:
                                found[(a.info[0], IK(a.info[1]))] = a.info
            elif isinstance(v, R) and not v.is_int():
                for x in v.atoms():
                    a = ATOMS[x]
                    if a.key[0] == "elem" and a.key[3] == "time" and a.info[1].atoms() & ids:
                        found[(a.info[0], IK(a.info[1]))] = a.info
    out = {}
    phis = {("phi", uid)}
    for S, idx, f in list(found.values()):
        if isinstance(S, tuple) and S and S[0] == "phi" and len(S) > 1 and S[1] == uid:
            continue
        for d in (-1, 0, 1):
            i = idx + R.c(d)
            out[(S, IK(i))] = elem(S, i, "time")
    # keep it small: per sequence at most 4 positions
    per = {}
    res = []
    for (S, ik), r in out.items():
        per[S] = per.get(S, 0) + 1
        if per[S] <= 5:
            res.append(r)
    return res[:10]


def invariant_reals(eng, pre, P):
    """Real-valued parameters and locals of the current function the loop leaves alone."""
    out = []
    roots = {c[0] for c in P.leaves}
    for r in list(pre.env.values()):
        if not isinstance(r, Ref) or r.root in roots:
            continue
        v = eng.read(pre, r)
        if isinstance(v, R) and not v.is_int() and v.den == {(): 1}:
            if not any(x == v for x in out):
                out.append(v)
    return out[:5]


def invariant_ints(eng, pre, P, uid):
    """Integers and lengths that the loop leaves alone and that are visible in the current function."""
    out = []
    roots = {c[0] for c in P.leaves}
    for r in list(pre.env.values()):
        if not isinstance(r, Ref) or r.root in roots:
            continue
        v = eng.read(pre, r)
        if isinstance(v, Seq):
            v = eng.seq_len(v)
        if isinstance(v, R) and v.is_int() and v.const() is None and not any(x == v for x in out):
            out.append(v)
    out = out[:5]
    # lengths the loop's own tests look at
    more = []
    for _, b in P.inc:
        for rel, x in b.facts.items:
            for a in x.atoms():
                a = ATOMS[a]
                if a.key[0] == "size" and a.key[1][:2] != ("phi", uid):
                    v = R.a(a)
                    if not any(y == v for y in out + more) and not any(rel2 == rel and y == x for rel2, y in pre.facts.items):
                        more.append(v)
    return out + more[:3]


# ---- checking -----------------------------------------------------------------------------
def holds_on(eng, P, cand, uid, only=None):
    rel, r = cand
    for src, b in P.inc:
        if only is not None and src != only:
            continue
        x = transport(eng, r, P, src, b, uid)
        if x is None:
            return False
        try:
            if not b.facts.entails(rel, x):
                return False
        except Budget:
            return False
    return True


def transport(eng, r, P, src, b, uid):
    """The relation's expression with the head symbols of P replaced by the values on an edge."""
    K = ("k", uid)
    kv = ONE_R if src == "pre" else R.a(atom(K, "i")) + ONE_R
    rep, seqs = {}, {}
    for c, v in P.leaves.items():
        if isinstance(v, R):
            a = v.single()
            if a is not None and a.key == phi_name(uid, P, c):
                rep[a.key] = getloc(eng, b, c)
        elif isinstance(v, Seq) and v.segs and v.segs[0][0] == "base" and v.segs[0][1] == phi_name(uid, P, c):
            seqs[v.segs[0][1]] = getloc(eng, b, c)
    bad = []

    def f(a):
        if a.key == K:
            return kv
        if a.key in rep:
            v = rep[a.key]
            if not isinstance(v, R):
                bad.append(a)
                return None
            return v
        if a.key[0] == "size" and a.info[0] in seqs:
            v = seqs[a.info[0]]
            if not isinstance(v, Seq):
                bad.append(a)
                return None
            return eng.seq_len(v)
        if a.key[0] == "elem":
            S, idx, fld = a.info
            idx2 = idx.subst(f)
            if S in seqs:
                v = seqs[S]
                if not isinstance(v, Seq):
                    bad.append(a)
                    return None
                x = eng.seq_get(b, v, idx2)
                if fld:
                    x = x.f.get(fld) if isinstance(x, Struct) else None
                if not isinstance(x, R):
                    bad.append(a)
                    return None
                return x
            if idx2.key() != idx.key():
                return elem(S, idx2, fld)
        return None
    x = r.subst(f)
    return None if bad else x
