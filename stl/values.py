"""Abstract values, state and memory of the analysis."""
from terms import R, Facts, elem, size, atom, ZERO, ONE_R, IK
from model import ptype, strip_cvref, INTS, REALS


class Top:
    """Unknown value."""
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return f"?({self.why})"

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class V:
    """Base for immutable structured values compared by content."""
    __slots__ = ()
    _f = ()

    def __eq__(self, o):
        return type(self) is type(o) and all(getattr(self, f) == getattr(o, f) for f in self._f)

    def __hash__(self):
        return hash((type(self).__name__,) + tuple(hash(getattr(self, f)) for f in self._f))

    def __repr__(self):
        return type(self).__name__ + "(" + ", ".join(repr(getattr(self, f)) for f in self._f) + ")"


def mk(name, fields, defaults=()):
    fl = tuple(fields.split())

    def __init__(self, *a):
        n = len(a)
        for i, f in enumerate(fl):
            setattr(self, f, a[i] if i < n else defaults[i - len(fl)])
    return type(name, (V,), {"__slots__": fl, "_f": fl, "__init__": __init__})


B = mk("B", "term")                      # symbolic boolean
En = mk("En", "en val")                  # enum: val str (constant) or tuple term
Str = mk("Str", "term")
Ptr = mk("Ptr", "ref own", (None,))      # pointer to Ref; own: shared/unique/raw
It = mk("It", "ref pos rev", (False,))   # ref: Ref to the container
Var = mk("Var", "ty term tag val")       # variant: (type string, symbolic term | None, tag | None, payload)
Opt = mk("Opt", "has val")               # has: bool | B
Func = mk("Func", "tu node")             # reference to a named function
Functor = mk("Functor", "ty")            # std::less<> and friends
OutIt = mk("OutIt", "ref")               # back_inserter
Init = mk("Init", "vals")                # initializer_list contents
Overload = mk("Overload", "fs")
Opq = mk("Opq", "ty term args", ((),))   # opaque object
Exc = mk("Exc", "ty args")               # exception object
NULL = Ptr(None)


class Struct(V):
    __slots__ = ("cls", "f")
    _f = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __hash__(self):
        return hash((self.cls, tuple(sorted((k, hash(v)) for k, v in self.f.items()))))

    def with_(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Struct(self.cls, d)

    def __repr__(self):
        return self.cls.split("::")[-1].split("<")[0] + "{" + ", ".join(f"{k}={v!r}" for k, v in self.f.items()) + "}"


class Closure(V):
    __slots__ = ("node", "tu", "env", "this", "fn")
    _f = ("node",)

    def __init__(self, node, tu, env, this, fn):
        self.node, self.tu, self.env, self.this, self.fn = node, tu, env, this, fn

    def __eq__(self, o):
        return isinstance(o, Closure) and self.node is o.node and self.env == o.env

    def __hash__(self):
        return id(self.node)

    def __repr__(self):
        return "<lambda>"


class Seq(V):
    """Sequence: segments + element overlays.
    segs: ('base', S) | ('item', v) | ('splice', S, lo, hi, et) | ('rev', (segs...))."""
    __slots__ = ("segs", "over", "et", "kind")
    _f = ("segs", "over", "et")

    def __init__(self, segs, et, over=(), kind="vector"):
        self.segs, self.et, self.over, self.kind = tuple(segs), et, tuple(over), kind

    def push(self, v):
        return Seq(self.segs + (("item", v),), self.et, self.over, self.kind)

    def __repr__(self):
        s = "Seq[" + ", ".join(str(x[0]) + ":" + " ".join(repr(y) for y in x[1:]) for x in self.segs) + "]"
        return s + (f"+over{self.over}" if self.over else "")


class MapV(V):
    __slots__ = ("name", "ins", "vt", "kt")
    _f = ("name", "ins")

    def __init__(self, name, ins, kt, vt):
        self.name, self.ins, self.kt, self.vt = name, tuple(ins), kt, vt


class Ref:
    """Location: root cell + access path."""
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def __add__(self, p):
        return Ref(self.root, self.path + (p,))

    def __eq__(self, o):
        return isinstance(o, Ref) and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return f"&{self.root}" + "".join(f".{p}" for p in self.path)


class State:
    __slots__ = ("cells", "facts", "alts", "bools", "ens", "env", "this", "fn", "stack", "exact", "lits", "loops", "trace")

    def __init__(self):
        self.cells = {}
        self.facts = Facts()
        self.alts = {}
        self.bools = {}
        self.ens = {}
        self.env = {}
        self.this = None
        self.fn = None
        self.stack = ()
        self.exact = True
        self.lits = ()
        self.loops = ()
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.facts = self.facts.copy()
        s.alts = dict(self.alts)
        s.bools = dict(self.bools)
        s.ens = dict(self.ens)
        s.env = dict(self.env)
        s.this, s.fn, s.stack = self.this, self.fn, self.stack
        s.exact, s.lits, s.loops, s.trace = self.exact, self.lits, self.loops, self.trace
        return s
