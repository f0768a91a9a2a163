"""Loads the exported program (one JSON file per translation unit)."""
import json
from functools import lru_cache


class Broken(Exception):
    """The analysis itself cannot run (not a verdict on the property)."""


def strip_cvref(t):
    t = t.strip()
    while True:
        o = t
        if t.endswith("&&"):
            t = t[:-2].rstrip()
        elif t.endswith("&"):
            t = t[:-1].rstrip()
        if t.endswith(" const"):
            t = t[:-6].rstrip()
        if t.startswith("const "):
            t = t[6:].lstrip()
        if t.startswith("volatile "):
            t = t[9:].lstrip()
        if t == o:
            return t


@lru_cache(maxsize=None)
def ptype(t):
    """'std::vector<A, B>' -> ('std::vector', ('A','B')); pointers -> ('*', (T,))."""
    t = strip_cvref(t)
    if t.endswith("*const"):
        t = t[:-5]
    if t.endswith("*"):
        return ("*", (strip_cvref(t[:-1]),))
    if t.startswith("(lambda at"):
        return (t, ())
    if not t.endswith(">"):
        return (t, ())
    i = t.find("<")
    if i < 0:
        return (t, ())
    # the template argument list that ends at the end of the string
    depth, j = 0, len(t) - 1
    while j >= 0:
        c = t[j]
        if c == ">" and t[j - 1] != "-":
            depth += 1
        elif c == "<":
            depth -= 1
            if depth == 0:
                break
        j -= 1
    name, body = t[:j], t[j + 1:-1]
    args, depth, cur = [], 0, ""
    for n, c in enumerate(body):
        if c in "<(":
            depth += 1
        elif c == ")" or (c == ">" and body[n - 1] != "-"):
            depth -= 1
        if c == "," and depth == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        args.append(cur.strip())
    return (name, tuple(args))


INTS = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short",
        "unsigned short", "char", "signed char", "unsigned char"}
REALS = {"double", "float", "long double"}


class Fun:
    def __init__(self, tu, j):
        self.tu, self.j = tu, j
        self.id = j["id"]
        self.qn = j["qn"]
        self.key = (tu.name, j["id"])
        self.params = j["p"]
        self.file, self.line = j["file"], j["l"]

    @property
    def where(self):
        return f"{self.file}:{self.line} ({self.qn})"

    def __repr__(self):
        return f"<{self.qn} @{self.file}:{self.line}>"


class TU:
    def __init__(self, name, j):
        self.name = name
        self.j = j
        self.funcs = {}
        for f in j["functions"]:
            self.funcs[f["id"]] = Fun(self, f)


class Program:
    def __init__(self, files):
        self.tus = []
        for name, path in files:
            with open(path) as f:
                self.tus.append(TU(name, json.load(f)))
        self.by_qn = {}
        self.records = {}
        self.enums = {}
        seen = set()
        for tu in self.tus:
            for f in tu.funcs.values():
                self.by_qn.setdefault(f.qn, []).append(f)
            for r in tu.j["records"]:
                self.records.setdefault(r["t"], r)
            for e in tu.j.get("enums", []):
                self.enums.setdefault(e["t"], e["names"])
        self.ops = {}
        for tu in self.tus:
            for f in tu.funcs.values():
                if f.qn.endswith("::operator()") and f.j.get("cls") and not f.j.get("lambda"):
                    for c in {f.j.get("clst"), f.j["cls"], f.qn[:-len("::operator()")]}:
                        if c:
                            self.ops.setdefault(c, []).append(f)
        self.tu_by = {t.name: t for t in self.tus}

    def all_functions(self):
        """One per source entity (header functions appear in several TUs)."""
        seen = set()
        for tu in self.tus:
            for f in tu.funcs.values():
                k = (f.file, f.line, f.qn, tuple(p["ct"] for p in f.params), f.j.get("lambda") and f.j["l2"],
                     tuple(f.j.get("ta") or ()), f.j.get("clst"))
                if k in seen:
                    continue
                seen.add(k)
                yield f

    def call_ops(self, cls, tu=None):
        """The call operators of a class type, those of the given unit first."""
        c = self.ops.get(cls, [])
        return [f for f in c if tu is None or f.tu is tu] or c

    def find(self, qn, types=None, tu=None):
        """Function definitions named qn with the given value parameter types."""
        out = []
        for f in self.by_qn.get(qn, []):
            if tu and f.tu.name != tu:
                continue
            if types is not None and [p["t"] for p in f.params] != list(types):
                continue
            out.append(f)
        return out

    def one(self, qn, types=None, nparams=None, pred=None):
        c = [f for f in self.find(qn, types) if (nparams is None or len(f.params) == nparams) and (pred is None or pred(f))]
        if not c:
            raise Broken(f"anchor not found: {qn}{'' if types is None else types}")
        return c[0]

    def resolve(self, tu, node):
        b = node.get("body")
        if b is not None and b in tu.funcs:
            return tu.funcs[b]
        if node.get("fid") in tu.funcs:
            return tu.funcs[node["fid"]]
        if node.get("repo"):
            for f in self.by_qn.get(node["fn"], []):
                if [p["ct"] for p in f.params] == node.get("pt"):
                    return f
        return None
