"""PEG grammars given as PEGTL rule types, interpreted over sentential forms.

The input is not a text but a sequence of symbols: characters, whole classes of words (an identifier, a run of digits,
white space, comment text) and terms. The grammar is read from the type trees the compiler instantiated, the semantic
actions are the library's own functions, run by the abstract interpreter on abstract parser states."""
import json
import re
from terms import R, ATOMS, ZERO
from values import *


class Unsupported(Exception):
    """The grammar uses something this evaluator has no meaning for."""


def rng(*ps):
    return frozenset(c for a, b in ps for c in range(ord(a), ord(b) + 1))


ALL = frozenset(range(256))
DIGIT = rng("09")
LOWER, UPPER = rng("az"), rng("AZ")
ALPHA = LOWER | UPPER
IDF = ALPHA | {ord("_")}
IDO = IDF | DIGIT
SPACE = frozenset(map(ord, " \t\n\r\v\f"))
BLANK = frozenset(map(ord, " \t"))
CLASSES = {"digit": DIGIT, "lower": LOWER, "upper": UPPER, "alpha": ALPHA, "alnum": ALPHA | DIGIT, "identifier_first": IDF,
           "identifier_other": IDO, "space": SPACE, "blank": BLANK, "any": ALL, "xdigit": DIGIT | rng("af", "AF"), "odigit": rng("07"),
           "print": rng((" "), ("~")) if False else frozenset(range(32, 127)), "graph": frozenset(range(33, 127)), "seven": frozenset(range(128)), "nul": frozenset([0]),
           "cntrl": frozenset(range(32)) | {127}}

# symbols: ('c', ch) ('I', n) ('D', n) ('W', n) ('X', n) ('T', n) ('T*', n)
RUNS = {"I": (IDF, IDO), "D": (DIGIT, DIGIT), "W": (SPACE, SPACE), "X": (ALL - {10, 13}, ALL - {10, 13})}


def key(t):
    return json.dumps(t, sort_keys=True)


def lit(text):
    return [("c", c) for c in text]


class Grammar:
    def __init__(self, prog):
        self.recs, self.raises, self.funs, self.byt = {}, {}, {}, {}
        for tu in prog.tus:
            if not any("tao::pegtl" in json.dumps(r.get("bases")) for r in tu.j["records"]):
                continue
            for r in tu.j["records"]:
                self.recs.setdefault(key(r["tree"]), r)
                self.byt.setdefault(r["t"], r)
            for r in tu.j.get("raises", ()):
                a = r["args"]
                if len(a) >= 2:
                    k = key(a[1])
                    self.raises[k] = bool(r.get("val")) if "val" in r else None
        for F in prog.all_functions():
            c = F.j.get("clst")
            if c and F.j["n"] in ("apply", "apply0", "match"):
                self.funs.setdefault((c, F.j["n"]), []).append(F)
        self.words = set()

    def rec(self, tree):
        return self.recs.get(key(tree))

    def action(self, tpl, rule):
        """(how, function) of the semantic action of a rule; how is 'apply', 'apply0' or None; plus a custom match."""
        out = {}
        todo = [{"rec": tpl, "args": [rule]}]
        seen = 0
        while todo and seen < 10:
            seen += 1
            t = todo.pop(0)
            r = self.rec(t)
            if r is None:
                continue
            for n in ("apply", "apply0", "match"):
                fs = self.funs.get((r["t"], n))
                if fs and n not in out:
                    out[n] = fs
                elif not fs and n not in out and any(m["n"] == n for m in r["methods"]):
                    out[n] = None
            todo += [b for b in r["bases"] if isinstance(b, dict) and "rec" in b]
        return out

    def strings(self):
        """All literal words of the grammar."""
        if not self.words:
            def walk(t):
                if isinstance(t, dict):
                    if t.get("rec", "").split("::")[-1] in ("string", "istring", "keyword") and all("int" in a for a in t.get("args", ())):
                        self.words.add("".join(chr(int(a["int"]) & 255) for a in t.get("args", ())))
                    for x in t.get("args", ()):
                        walk(x)
                    for x in t.get("pack", ()):
                        walk(x)
            for r in self.recs.values():
                for b in r["bases"]:
                    walk(b)
        return self.words


PEGNS = "tao::pegtl::"


class Parse:
    """One parse of one sentential form."""

    def __init__(self, G, form, action, states, term_rule, hyp=None, budget=15000):
        self.G, self.form, self.tpl = G, list(form), action
        self.states, self.term_rule, self.hyp = states, term_rule, hyp
        self.steps, self.budget = 0, budget
        self.tok = 0
        self.applied = []
        self.depth = 0

    # ---- positions: (symbol index, inside a run) --------------------------------
    def token(self, st):
        return st.cells.get(("ghost", "tok"), 0)

    def bump(self, st):
        self.tok += 1
        st.cells[("ghost", "tok")] = self.tok

    def char(self, pos, cls):
        """Consume one character of a class: [(position, ok, exact)]."""
        i, more = pos
        if i >= len(self.form):
            return [(pos, False)]
        s = self.form[i]
        if s[0] == "c":
            return [((i + 1, False), True)] if ord(s[1]) in cls else [(pos, False)]
        if s[0] in RUNS:
            have = RUNS[s[0]][1 if more else 0]
            both = have & cls
            out = []
            if both:
                out += [((i, True), True), ((i + 1, False), True)]
            if have - cls:
                out.append((pos, False))
            return out
        if s[0] in ("T", "T*"):
            if ord("(") in cls:
                raise Unsupported("a rule looks inside an opaque term")
            return [(pos, False)]
        raise Unsupported(f"symbol {s}")

    def word(self, pos, text, fold=False):
        cur, out = {pos}, set()
        start = pos
        for n, c in enumerate(text):
            cls = frozenset([ord(c)]) if not fold else frozenset([ord(c.lower()), ord(c.upper())])
            nx = set()
            for p in cur:
                for q, ok in self.char(p, cls):
                    if ok:
                        nx.add(q)
                    else:
                        out.add((start, False))
            cur = nx
        i, more = start
        if i < len(self.form) and self.form[i][0] == "I" and not more:
            # an identifier symbol stands for identifiers that are none of the grammar's words
            cur.discard((i + 1, False))
        return sorted(out) + [(p, True) for p in sorted(cur)]

    def text(self, a, b):
        """The text between two positions as a string value."""
        if a[1] or b[1]:
            return Str(("txt", "part", a, b, tuple(self.form[a[0]:b[0] + 1])))
        syms = tuple(self.form[a[0]:b[0]])
        if len(syms) == 1 and syms[0][0] == "I":
            return Str(("id", syms[0][1]))
        if all(s[0] == "c" for s in syms):
            return Str(("lit", "".join(s[1] for s in syms)))
        return Str(("txt", syms))

    # ---- rules ------------------------------------------------------------------
    def match(self, eng, st, rule, pos, act, node, refs, direct=False):
        """Control<Rule>::match -> [(state, position, ok)]; failures give the starting position back."""
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported("too many steps")
        eng.tick()
        how = self.G.action(self.tpl, rule)
        is_term = key(rule) == self.term_rule
        if is_term and not direct and pos[0] < len(self.form) and self.form[pos[0]][0] == "T" and not pos[1]:
            return self.assume(eng, st, pos, refs)
        if "match" in how and not direct:
            return self.own_match(eng, st, rule, pos, act, node, refs, how["match"])
        out = []
        for s, p, ok in self.body(eng, st, rule, pos, act, node, refs):
            if ok and act and ("apply" in how or "apply0" in how):
                n = "apply" if "apply" in how else "apply0"
                if not how[n]:
                    raise Unsupported(f"action of {show(rule)} is not instantiated")
                for s2, ok2 in self.apply(eng, s, rule, n, how[n], pos, p, node, refs):
                    out.append((s2, p if ok2 else pos, ok2))
            else:
                out.append((s, p if ok else pos, ok))
        res = []
        for s, p, ok in out:
            if not ok and self.raises(rule):
                eng.throw(s, Exc("tao::pegtl::parse_error", (Str(("lit", "failure of " + show(rule))),)), node)
                continue
            res.append((s, p, ok))
        return self.merge(res)

    def raises(self, rule):
        k = key(rule)
        if k in self.G.raises:
            v = self.G.raises[k]
            if v is None:
                raise Unsupported("raise_on_failure has no value")
            return v
        return False

    def merge(self, outs):
        seen, res = {}, []
        for s, p, ok in outs:
            k = (self.token(s), p, ok)
            if k in seen:
                continue
            seen[k] = True
            res.append((s, p, ok))
        if len(res) > 300:
            raise Unsupported("too many outcomes")
        return res

    def assume(self, eng, st, pos, refs):
        """Induction hypothesis: a term is accepted and appends its own expression to the terms of the state it is
        matched with, and changes nothing else."""
        sym = self.form[pos[0]]
        if self.hyp is None:
            raise Unsupported("opaque term without hypothesis")
        r, f = self.hyp(eng, st, refs)
        v = eng.read(st, r + f)
        if not isinstance(v, Seq):
            raise Unsupported("list of terms is not a sequence")
        et = v.et
        if sym[0] == "T":
            x = eng.sym(et, ("term", sym[1]))
            nv = v.push(x)
        else:
            # any number of terms
            nv = Seq(v.segs + (("base", ("terms", sym[1])),), v.et, v.over, v.kind)
        eng.write(st, r + f, nv)
        self.bump(st)
        return [(st, (pos[0] + 1, False), True)]

    def own_match(self, eng, st, rule, pos, act, node, refs, fs):
        if not fs:
            raise Unsupported(f"match of {show(rule)} is not instantiated")
        F = fs[0]
        want = f", {1 if act else 0}"
        st.cells[("ghost", "pos")] = (pos, act)
        stack, st.stack = st.stack, ()
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        inp = eng.alloc(st, Opq("pegtl-input", ("input",)), "tmp")
        outs = eng.call_fun(st, F, None, [inp] + refs, node)
        self.depth -= 1
        res = []
        for s, v in outs:
            s.stack = stack
            p = s.cells.get(("ghost", "pos"), (pos, act))[0]
            self.bump(s)
            for s2, ok in eng.truth(s, eng.read(s, v)):
                res.append((s2, p if ok else pos, bool(ok)))
        return res

    def apply(self, eng, st, rule, n, fs, a, b, node, refs):
        F = fs[0]
        self.bump(st)
        self.applied.append((rule, F))
        args = list(refs)
        if n == "apply":
            inp = eng.alloc(st, Opq("pegtl-action-input", ("text",), (self.text(a, b),)), "tmp")
            args = [inp] + args
        if len(args) != len(F.params):
            raise Unsupported(f"action of {show(rule)} takes {len(F.params)} arguments")
        stack, st.stack = st.stack, ()
        outs = eng.call_fun(st, F, None, args, node)
        res = []
        for s, v in outs:
            s.stack = stack
            self.bump(s)
            if F.j["ret"] == "bool":
                res += [(s2, bool(r)) for s2, r in eng.truth(s, eng.read(s, v))]
            else:
                res.append((s, True))
        return res

    def body(self, eng, st, rule, pos, act, node, refs):
        n = rule.get("rec")
        if n is None:
            raise Unsupported(f"rule {rule}")
        a = rule.get("args", [])
        if n.startswith(PEGNS):
            short = n[len(PEGNS):].split("::")[-1]
            return self.merge(self.builtin(eng, st, short, a, rule, pos, act, node, refs))
        r = self.G.rec(rule)
        if r is None:
            raise Unsupported(f"rule {show(rule)} is not known")
        if any(m["n"] == "match" for m in r["methods"]):
            raise Unsupported(f"rule {show(rule)} has its own match")
        if len(r["bases"]) != 1:
            raise Unsupported(f"rule {show(rule)} has {len(r['bases'])} bases")
        # the base is part of the rule: no action or control of its own
        return self.body(eng, st, r["bases"][0], pos, act, node, refs)

    def seq(self, eng, st, rules, pos, act, node, refs, must=False):
        cur, out = [(st, pos)], []
        for r in rules:
            nx = []
            for s, p in cur:
                for s2, p2, ok in self.match(eng, s, r, p, act, node, refs):
                    if ok:
                        nx.append((s2, p2))
                    elif must:
                        eng.throw(s2, Exc("tao::pegtl::parse_error", (Str(("lit", "expected " + show(r))),)), node)
                    else:
                        out.append((s2, pos, False))
            cur = nx
        return out + [(s, p, True) for s, p in cur]

    def star(self, eng, st, rules, pos, act, node, refs, must_from=None, stop=None):
        """Greedy repetition. stop: rule list tried first (until); must_from: the rules from there on raise."""
        out, work, seen = [], [(st, pos)], set()
        while work:
            s, p = work.pop(0)
            if stop is None and must_from is None and p[0] < len(self.form) and self.form[p[0]][0] == "T*" and len(rules) == 1 \
                    and key(rules[0]) == self.term_rule:
                for s2, p2, _ in self.assume(eng, s, p, refs):
                    work.append((s2, p2))
                continue
            k = (self.token(s), p)
            if k in seen:
                continue
            seen.add(k)
            if stop is not None:
                for s2, p2, ok in self.seq(eng, s.copy(), [stop], p, act, node, refs):
                    if ok:
                        out.append((s2, p2, True))
                        continue
                    if rules is None:
                        for p3, ok3 in self.char(p, ALL):
                            if ok3:
                                work.append((s2.copy(), p3))
                            else:
                                out.append((s2.copy(), pos, False))
                    else:
                        for s3, p3, ok3 in self.seq(eng, s2, rules, p, act, node, refs):
                            if ok3:
                                if p3 == p and not p[1] and self.token(s3) == k[0]:
                                    raise Unsupported("repetition of an empty match")
                                work.append((s3, p3))
                            else:
                                out.append((s3, pos, False))
                continue
            first = rules if must_from is None else rules[:must_from]
            for s2, p2, ok in self.seq(eng, s.copy(), first, p, act, node, refs):
                if not ok:
                    out.append((s2, p, True))
                    continue
                nx = [(s2, p2, True)] if must_from is None else self.seq(eng, s2, rules[must_from:], p2, act, node, refs, must=True)
                for s3, p3, ok3 in nx:
                    if p3 == p and not p[1] and self.token(s3) == k[0]:
                        raise Unsupported("repetition of an empty match")
                    work.append((s3, p3))
        return out

    def times(self, eng, st, rules, pos, act, node, refs, lo, hi):
        out, cur = [], [(st, pos)]
        for n in range(hi if hi is not None else lo):
            nx = []
            for s, p in cur:
                for s2, p2, ok in self.seq(eng, s, rules, p, act, node, refs):
                    if ok:
                        nx.append((s2, p2))
                    elif n < lo:
                        out.append((s2, pos, False))
                    else:
                        out.append((s2, p, True))
            cur = nx
        if hi is None:
            for s, p in cur:
                out += self.star(eng, s, rules, p, act, node, refs)
            return out
        return out + [(s, p, True) for s, p in cur]

    def builtin(self, eng, st, n, a, rule, pos, act, node, refs):
        rules = [x for x in a if "rec" in x]
        ints = [int(x["int"]) for x in a if "int" in x]
        M = lambda s, r, p: self.match(eng, s, r, p, act, node, refs)
        S = lambda s, rs, p, **k: self.seq(eng, s, rs, p, act, node, refs, **k)

        def cls(c):
            outs = self.char(pos, c)
            return [(st if k == 0 else st.copy(), p, ok) for k, (p, ok) in enumerate(outs)]

        def chars():
            return frozenset(x & 255 for x in ints)
        if n in CLASSES:
            return cls(CLASSES[n])
        if n == "one":
            return cls(chars())
        if n == "not_one":
            return cls(ALL - chars())
        if n in ("range", "not_range"):
            c = frozenset(range(ints[0] & 255, (ints[1] & 255) + 1))
            return cls(c if n == "range" else ALL - c)
        if n == "ranges":
            c = set()
            for k in range(0, len(ints) - 1, 2):
                c |= set(range(ints[k] & 255, (ints[k + 1] & 255) + 1))
            if len(ints) % 2:
                c.add(ints[-1] & 255)
            return cls(frozenset(c))
        if n in ("string", "istring", "keyword", "two", "three"):
            t = "".join(chr(x & 255) for x in ints)
            t = t * {"two": 2, "three": 3}.get(n, 1)
            outs = self.word(pos, t, n == "istring")
            res = [(st if k == 0 else st.copy(), p, ok) for k, (p, ok) in enumerate(outs)]
            if n != "keyword":
                return res
            out = []
            for s, p, ok in res:
                if ok:
                    ends = self.char(p, IDO)
                    out += [(s.copy(), pos, False)] * any(o for _, o in ends) + [(s, p, True)] * any(not o for _, o in ends)
                else:
                    out.append((s, pos, False))
            return out
        if n == "identifier":
            out = []
            for s, p, ok in cls(IDF):
                if not ok:
                    out.append((s, pos, False))
                else:
                    out += self.star(eng, s, [{"rec": PEGNS + "identifier_other"}], p, act, node, refs)
            return out
        if n == "success":
            return [(st, pos, True)]
        if n == "failure":
            return [(st, pos, False)]
        if n == "discard":
            return [(st, pos, True)]
        if n == "raise":
            eng.throw(st, Exc("tao::pegtl::parse_error", ()), node)
            return []
        if n == "eof":
            return [(st, pos, pos[0] >= len(self.form))]
        if n in ("eol", "eolf"):
            if pos[0] >= len(self.form):
                return [(st, pos, n == "eolf")]
            out = []
            cr = self.char(pos, frozenset([13]))
            for s, p, ok in cls(frozenset([10])):
                if ok:
                    out.append((s, p, True))
                else:
                    if any(o for _, o in cr):
                        for p2, ok2 in cr:
                            if ok2:
                                for p3, ok3 in self.char(p2, frozenset([10])):
                                    out.append((s.copy(), p3 if ok3 else pos, ok3))
                            else:
                                out.append((s.copy(), pos, False))
                    else:
                        out.append((s, pos, False))
            return out
        if n == "bof":
            return [(st, pos, pos == (0, False))]
        if n == "seq":
            return S(st, rules, pos)
        if n == "sor":
            out, cur = [], [st]
            for r in rules:
                nx = []
                for s in cur:
                    for s2, p2, ok in M(s, r, pos):
                        if ok:
                            out.append((s2, p2, True))
                        else:
                            nx.append(s2)
                cur = [s for s, _, _ in self.merge([(s, pos, False) for s in nx])]
            return out + [(s, pos, False) for s in cur]
        if n == "opt":
            return [(s, p if ok else pos, True) for s, p, ok in S(st, rules, pos)]
        if n == "star":
            return self.star(eng, st, rules, pos, act, node, refs)
        if n == "plus":
            out = []
            for s, p, ok in S(st, rules, pos):
                out += self.star(eng, s, rules, p, act, node, refs) if ok else [(s, pos, False)]
            return out
        if n == "must":
            return S(st, rules, pos, must=True)
        if n in ("if_must", "opt_must"):
            out = []
            for s, p, ok in M(st, rules[0], pos):
                if ok:
                    out += S(s, rules[1:], p, must=True)
                else:
                    out.append((s, pos, n == "opt_must"))
            return out
        if n in ("if_then_else", "if_must_else"):
            out = []
            for s, p, ok in M(st, rules[0], pos):
                out += [(s2, p2 if ok2 else pos, ok2) for s2, p2, ok2 in S(s, [rules[1 if ok else 2]], p if ok else pos, must=n == "if_must_else")]
            return out
        if n == "until":
            return self.star(eng, st, rules[1:] if len(rules) > 1 else None, pos, act, node, refs, stop=rules[0])
        if n in ("at", "not_at"):
            out = []
            for s, p, ok in self.seq(eng, st, rules, pos, False, node, refs):
                out.append((s, pos, ok == (n == "at")))
            return out
        if n in ("disable", "enable"):
            return self.seq(eng, st, rules, pos, n == "enable", node, refs)
        if n in ("rep", "rep_min", "rep_max", "rep_opt", "rep_min_max"):
            lo, hi = {"rep": lambda: (ints[0], ints[0]), "rep_min": lambda: (ints[0], None), "rep_max": lambda: (0, ints[0]),
                      "rep_opt": lambda: (0, ints[0]), "rep_min_max": lambda: (ints[0], ints[1])}[n]()
            out = self.times(eng, st, rules, pos, act, node, refs, lo, hi)
            if n in ("rep_max", "rep_min_max"):
                # these refuse one more than the maximum
                res = []
                for s, p, ok in out:
                    if ok:
                        for s2, p2, ok2 in self.seq(eng, s, rules, p, False, node, refs):
                            res.append((s2, pos if ok2 else p, not ok2))
                    else:
                        res.append((s, pos, False))
                out = res
            return out
        if n in ("list", "list_must", "list_tail"):
            if len(rules) > 2 and rules[2].get("type") != "void":
                sep = {"rec": PEGNS + "pad", "args": [rules[1], rules[2]]}
            else:
                sep = rules[1]
            out = []
            for s, p, ok in M(st, rules[0], pos):
                if not ok:
                    out.append((s, pos, False))
                    continue
                outs = self.star(eng, s, [sep, rules[0]], p, act, node, refs, must_from=1 if n == "list_must" else None)
                if n == "list_tail":
                    outs = [(s3, p3 if ok3 else p2, True) for s2, p2, _ in outs for s3, p3, ok3 in M(s2, sep, p2)]
                out += outs
            return out
        if n == "star_must":
            return self.star(eng, st, rules, pos, act, node, refs, must_from=1)
        if n == "pad":
            p1, p2 = rules[1], rules[2] if len(rules) > 2 else rules[1]
            return S(st, [{"rec": PEGNS + "star", "args": [p1]}, rules[0], {"rec": PEGNS + "star", "args": [p2]}], pos)
        if n == "pad_opt":
            st1 = {"rec": PEGNS + "star", "args": [rules[1]]}
            return S(st, [st1, {"rec": PEGNS + "opt", "args": [rules[0], st1]}], pos)
        raise Unsupported(f"PEGTL rule {n}")


def show(rule):
    n = rule.get("rec", "?").split("::")[-1]
    if rule.get("args"):
        return n + "<...>"
    return n


# ---- calls from the library ----------------------------------------------------
CONTROL = re.compile(r"(must_if<.*>::(template )?control<\w+>|(^|::)normal<\w+>)$")


def control_ok(tt):
    """Only PEGTL's own controls are understood."""
    if len(tt) < 2:
        return True
    c = tt[1]
    return c["qn"] == PEGNS + "normal" or bool(CONTROL.search(c.get("alias", "")))


def f_parse(eng, st, args, node):
    p = getattr(eng, "peg", None)
    if p is None:
        import stdlib
        return stdlib.extern(eng, st, node["fn"], args, node)
    return p.parse(eng, st, args, node)


def f_match(eng, st, args, node):
    p = getattr(eng, "peg", None)
    if p is None or p.run is None:
        import stdlib
        return stdlib.extern(eng, st, node["fn"], args, node)
    tt, tr = node.get("tt") or [], node.get("tr") or []
    if not control_ok(tt) or (tt and tt[0]["qn"] != p.run.tpl):
        raise Unsupported("control or action of an inner match")
    pos, act = st.cells.get(("ghost", "pos"), ((0, False), True))
    modes = [x for x in tr if x.get("t", "").endswith("apply_mode")]
    if modes:
        act = act and modes[0]["int"] == "1"
    out = []
    for s, q, ok in p.run.match(eng, st, tr[0], pos, act, node, list(args[1:]), direct=True):
        s.cells[("ghost", "pos")] = (q, act)
        out.append((s, bool(ok)))
    return out


def nullary(t):
    return [x for x in t.get("args", ()) if isinstance(x, dict) and "rec" in x]


def recursive(G, root):
    """The named rules every cycle of the grammar goes through, those with a match of their own first."""
    seen, edges = {}, {}

    def visit(t):
        k = key(t)
        if k in seen:
            return
        seen[k] = t
        edges[k] = []
        r = G.rec(t)
        subs = nullary(t) if t["rec"].startswith(PEGNS) else [b for b in (r["bases"] if r else []) if isinstance(b, dict) and "rec" in b]
        for x in subs:
            edges[k].append(key(x))
            visit(x)
    visit(root)

    def cyclic(without):
        state = {}

        def dfs(k):
            if k == without or state.get(k) == 2:
                return False
            if state.get(k) == 1:
                return True
            state[k] = 1
            if any(dfs(x) for x in edges[k]):
                return True
            state[k] = 2
            return False
        return any(dfs(k) for k in edges)
    if not cyclic(None):
        return []
    return [seen[k] for k in seen if not seen[k]["rec"].startswith(PEGNS) and not cyclic(k)]


class Driver:
    """What tao::pegtl::parse means while one sentential form is analysed."""

    def __init__(self, G, form, hyp=None, term_rule=None, step=None):
        self.G, self.form, self.hyp, self.step = G, form, hyp, step
        self.term_rule = term_rule
        self.run = None
        self.calls = 0
        self.inputs = []
        self.rule = None

    def parse(self, eng, st, args, node):
        tt, tr = node.get("tt") or [], node.get("tr") or []
        if not tr or "rec" not in tr[0]:
            raise Unsupported("the rule given to parse")
        if not control_ok(tt):
            raise Unsupported("control " + str(tt[1:2]))
        modes = [x for x in tr if x.get("t", "").endswith("apply_mode")]
        act = bool(modes and modes[0]["int"] == "1" or not modes)
        self.calls += 1
        self.rule = tr[0]
        tpl = tt[0]["qn"] if tt else PEGNS + "nothing"
        self.inputs.append(eng.read(st, args[0]))
        refs = list(args[1:])
        self.run = Parse(self.G, self.form, tpl, refs, self.term_rule, self.hyp)
        if self.step is not None:
            return self.step(self, eng, st, refs, node) or []
        out = []
        for s, p, ok in self.run.match(eng, st, tr[0], st.cells.get(("ghost", "read"), (0, False)), act, node, refs):
            s.cells[("ghost", "read")] = p
            out.append((s, bool(ok)))
        return out
