"""C04: no operation writes to what it was given. C05: no operation depends on anything but its arguments."""
import os
import re
from values import *
from model import strip_cvref, ptype
from rules.common import *
from rules import saferules as sf
from rules import sigrules as sg
from rules import robrules as rr
import base

S_ = SIG + "Signal"
# operations of the public interface that are there to change their object
MUTATORS = {S_ + "::push_back", "signal_tl::Specification::add_formula", "signal_tl::Specification::add_assertion"}
OWN = ("heap", "sig", "var", "par", "tmp", "new", "best")


def rel(F):
    return os.path.relpath(F.file, base.REPO)


def others(ctx, done):
    """The remaining functions of the library proper (formulas, signals, semantics, printing)."""
    seen = set()
    for F in ctx.prog.all_functions():
        f = rel(F)
        if F.key in done or F.j.get("lambda") or F.j.get("defaulted") or F.j.get("impl") or "(anonymous" in F.qn or F.qn.startswith("stl_driver"):
            continue
        if f.startswith(("src/parser", "src/robust_semantics")) or "parser.hpp" in f or not f.startswith("src/"):
            # the semantics is interpreted from its entry point, helpers included
            continue
        k = (F.file, F.line, F.qn, tuple(p["ct"] for p in F.params))
        if k in seen:
            continue
        seen.add(k)
        yield F


def all_runs(ctx):
    done = set()
    for name, F, r in sf.runs(ctx):
        done.add(F.key)
        yield F.qn, F, r
    lines = {(F.file, F.line, F.qn) for F in ctx.prog.all_functions() if F.key in done}
    for F in others(ctx, done):
        if (F.file, F.line, F.qn) in lines:
            continue
        if F.j.get("ctor"):
            r = ctx.construct(F, F.j.get("clst") or F.j["cls"])
        else:
            r = ctx.analyse(F)
        yield F.qn, F, r


def target(st, val):
    """The object a returned pointer, expression or reference designates."""
    v = val
    if isinstance(v, Var) and v.tag is not None:
        v = v.val
    if isinstance(v, Ptr):
        return v.ref
    return None


class Fresh:
    """Which functions return only objects they created themselves."""

    def __init__(self):
        self.rets = {}

    def add(self, F, r):
        L = self.rets.setdefault(F.qn, [])
        if not r.ok or r.eng.gaveup:
            L.append(None)
            return
        for p in r.returns:
            v = p.val if not isinstance(p.val, Ref) else r.eng.read(p.st, p.val)
            vs = [v] if not (isinstance(v, Struct) and v.cls in ("std::tuple", "std::pair")) else list(v.f.values())
            for x in vs:
                if isinstance(x, Ptr) and x.ref is not None:
                    L.append(x.ref.root)
                elif isinstance(x, Ptr) or isinstance(x, (R, B, bool, Str, En)):
                    L.append(("heap", 0))
                else:
                    L.append(None)

    def fresh(self, qn, seen=()):
        """True / False (may return what it was given) / None."""
        if qn in seen:
            return True
        L = self.rets.get(qn)
        if not L:
            return None
        out = True
        for root in L:
            if root is None:
                out = None if out else out
            elif root[0] in OWN:
                continue
            elif root[0] == "obj" and isinstance(root[1], tuple) and root[1][0] == "rec":
                x = self.fresh(root[1][1], seen + (qn,))
                out = x if not x else out
                if x is False:
                    return False
            else:
                return False
        return out


def inside(term, pred, depth=0):
    if depth > 12:
        return False
    if pred(term):
        return True
    return isinstance(term, tuple) and any(inside(x, pred, depth + 1) for x in term)


def given(F, root, fresh):
    """Does the storage belong to something the caller passed in? (True/False/None, description)"""
    if root[0] in OWN:
        return False, ""
    if root[0] == "in":
        if root[1] == "this":
            if F.j.get("ctor"):
                return False, ""
            return True, "the object itself"
        p = next((q for q in F.params if (q["n"] or "") == root[1]), None)
        if p is not None and not p["ref"]:
            return False, ""
        return True, f"argument {root[1]}"
    if root[0] == "obj":
        t = root[1]
        if isinstance(t, tuple) and t and t[0] == "rec":
            f = fresh.fresh(t[1])
            nm = t[1].split("::")[-1]
            return (False if f else True if f is False else None), f"what {nm} returns, which can be the very object it was given"
        if inside(t, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == "p"):
            if inside(t, lambda x: isinstance(x, tuple) and x and x[0] == "rec"):
                return None, "something a call returned"
            from terms import show_key
            return True, f"the object behind {show_key(t)[:60]}"
        return None, "an unknown object"
    return None, "unknown storage"


def c04(ctx):
    """Every function of the library is interpreted abstractly on symbolic arguments; every store, container
    modification, sample append and move must target an object the function created itself or received by value.
    Storage reachable from reference parameters, from the object of a query and from the nodes behind shared
    pointers counts as the caller's; a pointer returned by another function counts as new only if every path of
    that function returns an object it created. A cast that removes const changes
    nothing about who owns the storage."""
    fresh = Fresh()
    found = []
    for qn, F, r in all_runs(ctx):
        fresh.add(F, r)
        found.append((F, r.ok and not r.eng.gaveup, r.why, stores(ctx, F, r)))
        r.events.clear()
        r.paths.clear()
    for F, ok, why, evs in found:
        name = F.qn.split("::")[-1]
        if not ok:
            ctx.check(None, name, F, why or "loop without invariant")
        told = set()
        for kind, root, line, where, exact in evs:
            yes, what = given(F, root, fresh)
            if yes is False or (kind, line, what) in told:
                continue
            told.add((kind, line, what))
            verb = {"write": "stores into", "seqop": "modifies", "moved": "moves out of", "append": "appends to"}[kind]
            ctx.check(False if yes and exact else None, f"{name}:input", where, f"{name} {verb} {what}")
        ctx.count("stores", len(evs))
        if not told:
            ctx.check(True, f"{name}:stores", F, f"{len(evs)} stores target objects of its own")


def stores(ctx, F, r):
    """The stores of a function: (kind, root of the target, line, place, path exact)."""
    out = {}
    for e in r.events:
        ref = None
        if e.kind == "wild" and e.line:
            out[("wild", e.line)] = ("write", ("wild",), e.line, e.where(), False)
        if e.kind in ("write", "seqop", "moved"):
            ref = e.data["ref"]
        elif e.kind == "append":
            ref = e.data.get("sig")
        if not isinstance(ref, Ref):
            continue
        if ref.root == ("in", "this") and allowed(ctx, F, e.fn):
            continue
        if ref.root[0] == "in" and ref.root[1] != "this" and internal_out(ctx, F, ref.root[1]):
            continue
        if mutable_path(ctx, ref):
            continue
        root = ref.root if ref.root[0] not in OWN else (ref.root[0],)
        k = (e.kind, root, e.line)
        out[k] = (e.kind, root, e.line, e.where(), bool(e.st.exact) or bool(out.get(k, (0,) * 5)[4]))
    return list(out.values())


def allowed(ctx, F, fn):
    """May the function change its own object?"""
    if F.qn in MUTATORS:
        return True
    return not F.j.get("mc") and F.j.get("access") != "public" and F.j.get("cls") is not None


def internal_out(ctx, F, pname):
    """Reference parameters of internal functions may be outputs; the callers are judged by what they pass."""
    p = next((q for q in F.params if (q["n"] or "") == pname), None)
    if p is None or p["ct"].startswith("const "):
        return False
    f = rel(F)
    return not any(d["qn"] == F.qn and os.path.relpath(d["file"], base.REPO).startswith("src/include") for tu in ctx.prog.tus for d in tu.j["decls"]) \
        or "ostream" in p["ct"] or "format_context" in p["ct"] or "FormatContext" in p["ct"]


def mutable_path(ctx, ref):
    for r in ctx.prog.records.values():
        for f in r.get("fields", ()):
            if f.get("mut") and f["n"] in ref.path:
                return True
    return False


def walk(n, f):
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, f)
    elif isinstance(n, list):
        for v in n:
            walk(v, f)


# ---- C05 ---------------------------------------------------------------------
NONDET = re.compile(r"""^(::)?(std::)?(
    rand|srand|random|srandom|rand_r|drand48|lrand48|mrand48|erand48|arc4random(_uniform)?|getrandom|getentropy
  | time|clock|ftime|gettimeofday|clock_gettime|timespec_get|localtime|gmtime|mktime|times
  | getenv|secure_getenv|setenv|putenv|unsetenv|setlocale|localeconv|newlocale|uselocale|nl_langinfo
  | getpid|gettid|getppid|getuid|pthread_self|gethostname|sysconf|sched_getcpu|getrusage|get_nprocs
  | strtok|tmpnam|tmpfile|mkstemp|rename|remove|system|signal|raise|atexit|fopen|freopen|signbit_locale
  )$
  | ^std::random_device | ^std::chrono::.*::now$ | ^std::this_thread:: | ^std::thread::(hardware_concurrency|get_id) | ^std::filesystem::current_path
  | ^std::locale::global$ | ^std::locale::locale$ | ^std::set_new_handler | ^std::set_terminate""", re.X)
# conversions whose decimal point is the global C locale's
LOCALE = re.compile(r"^(::)?(std::)?(__cxx11::)?(stof|stod|stold|strtod|strtof|strtold|atof|sscanf|fscanf|scanf|sprintf|snprintf|printf|fprintf|vsnprintf|vsprintf|wcstod|strftime|strcoll|strxfrm)$")
CTYPE = re.compile(r"^(::)?(std::)?(isalpha|isspace|isalnum|isupper|islower|ispunct|isprint|isgraph|iscntrl|isblank|toupper|tolower)$")
STREAM = re.compile(r"^std::(__cxx11::)?basic_(i|o)?(string|f)stream$")
LOCKS = re.compile(r"(std::(mutex|shared_mutex|recursive_mutex|once_flag|condition_variable|shared_timed_mutex))$")
RULE5 = """Over the syntax of every function of the library: no use of storage that outlives the call unless it is constant
(declared const or constexpr, or never used other than for reading) and initialised from constants; no mutable fields;
no call of anything that reads clocks, random numbers, environment, process or thread identity; numbers are converted
without the global locale; no order, hash, text or integer made from an address; no reference counts; and, by abstract
interpretation of every function, no read of an uninitialised variable."""


def short(name):
    """The name without template arguments and inline namespaces ('operator<' and 'operator<<' keep theirs)."""
    m = re.search(r"::operator(<<|<=|<|>>|>=|>|->\*?)(?![a-z])", name)
    tail = ""
    if m:
        name, tail = name[:m.start()], m.group(0)
    out, depth = [], 0
    for c in name:
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
    return ("".join(out) + tail).replace("std::__cxx11::", "std::").replace("fmt::v9::", "fmt::")


def kids(n):
    for k, v in n.items():
        if isinstance(v, dict):
            yield k, v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield k, x


def scan(n, f, up=()):
    """f(node, ancestors) for every node."""
    f(n, up)
    for k, v in kids(n):
        scan(v, f, up + (n,))


def outer(qn):
    return qn.split("(")[0].split("::")[-1] or qn


def c05(ctx):
    funs, seen = [], set()
    for F in ctx.prog.all_functions():
        f = rel(F)
        if not f.startswith("src/") or "stl_driver" in F.qn or F.j.get("b") is None:
            continue
        k = (F.file, F.line, F.qn, tuple(p["ct"] for p in F.params))
        if k in seen:
            continue
        seen.add(k)
        funs.append(F)
    vars_ = {}
    for tu in ctx.prog.tus:
        for v in tu.j["vars"]:
            if os.path.relpath(v["file"], base.REPO).startswith("src/"):
                vars_[(v["file"], v["l"], v["qn"])] = v
    locals_static = {}
    for F in funs:
        one_function(ctx, F, locals_static)
    for (f, l, qn), v in sorted(vars_.items()):
        storage(ctx, v, funs, locals_static)
    mutables(ctx, funs)
    reads(ctx)


def one_function(ctx, F, statics):
    bad = []
    mentions = []

    def see(n, up):
        k = n.get("k")
        if isinstance(n.get("v"), list):        # a declaration statement
            for v in n["v"]:
                if v.get("static"):
                    statics[(F.file, v.get("l"), v["n"])] = (F, v)
                if re.match(r"^(const )?std::(multi)?(map|set)<[^,<>]*\*", v.get("t", "")):
                    bad.append((None, v.get("l"), "container ordered by address"))
        fn = short(n.get("fn", "")) if n.get("fn") and k in ("call", "mcall", "ocall", "construct") else None
        l = n.get("l", F.line)
        if fn:
            mentions.append(fn)
            a = n.get("a", ())
            if NONDET.search(fn) and not n.get("repo"):
                if fn.endswith("locale::locale") and (n.get("copy") or a):
                    bad.append((None, l, "std::locale"))
                else:
                    bad.append((True, l, f"calls {fn}"))
            elif LOCALE.search(fn) and not n.get("repo"):
                # text in messages is not a result; numbers read are
                bad.append((None if "print" in fn or "str" in outer(fn)[3:] else True, l, f"{outer(fn)} follows the global locale"))
            elif fn == "std::to_string" and a and any(x in REALS for x in [strip_cvref(p) for p in n.get("pt", ())]):
                bad.append((None, l, "std::to_string of a real number follows the global locale"))
            elif CTYPE.search(fn) and not n.get("repo"):
                bad.append((None, l, f"{outer(fn)} follows the global locale"))
            elif fn in ("std::shared_ptr::use_count", "std::__shared_ptr::use_count", "std::shared_ptr::unique", "std::weak_ptr::expired", "std::weak_ptr::use_count", "std::weak_ptr::lock"):
                bad.append((True, l, f"{outer(fn)} depends on who else holds the object"))
            elif fn in ("fmt::ptr",):
                bad.append((True, l, "text made from an address"))
            elif fn.startswith("std::") and outer(fn) in ("operator<", "operator>", "operator<=", "operator>=") and any("_ptr<" in strip_cvref(p) and strip_cvref(p).startswith("std::") and "optional" not in p for p in n.get("pt", ())[:1]):
                bad.append((True, l, "order of addresses"))
            elif fn.startswith(("std::hash", "std::less", "std::greater", "std::owner_less")) and re.search(r"(\*|_ptr<[^<>]*>)>", n.get("fn", "").split("::operator")[0] + ">"):
                bad.append((True if "hash" in fn else None, l, "order or hash of addresses"))
            elif fn.startswith(("std::thread", "std::async", "std::jthread")):
                bad.append((None, l, "starts threads"))
            if STREAM.match(fn.rsplit("::", 1)[0]) and k == "construct" and not n.get("copy"):
                pass
        if k == "cast" and (n.get("ck") == "PointerToIntegral" or (n.get("st") == "CXXReinterpretCastExpr" and "*" in (n.get("e") or {}).get("t", "") and "*" not in n.get("t", "*"))):
            bad.append((True, l, "integer made from an address"))
        if k == "ref" and n.get("rk") == "global" and not n.get("repo") and n.get("qn") in ("errno", "environ", "stdin", "std::cin"):
            bad.append((True, l, f"uses {n['qn']}"))
        if k == "lit" and n.get("vt") == "str" and up and re.search(r"\{[^{}]*:[^{}]*L[^{}]*\}", n.get("val", "")) and any((u.get("fn") or "").startswith("fmt::") for u in up):
            bad.append((True, l, "fmt's L option follows the global locale"))
    scan(F.j["b"], see)
    streams(F, bad)
    name = F.qn.split("::")[-1] if "(anonymous" not in F.qn and "lambda" not in F.qn else F.qn.split("(")[0].split("::")[-1] + " (local)"
    for v, l, what in bad:
        ctx.check(False if v else None, f"{name}:{what.split()[0]}", f"{rel(F)}:{l} ({F.qn})", what)
    if not bad:
        ctx.check(True, f"{name}:calls", F, f"{len(mentions)} calls, none reads anything but its operands")


def streams(F, bad):
    """A stream made here formats and parses numbers with the global locale unless another is imbued."""
    made, ops, imbued = {}, [], []

    def see(n, up):
        if isinstance(n.get("v"), list):
            for v in n["v"]:
                if STREAM.match(ptype(v.get("t", ""))[0]) or re.match(r"^std::(__cxx11::)?(i|o)?(string|f)stream$", strip_cvref(v.get("t", ""))):
                    made[v["id"]] = v
        fn = short(n.get("fn", "")) if n.get("fn") else ""
        if outer(fn) == "imbue":
            imbued.append(base_var(n.get("obj")))
        if outer(fn) in ("operator<<", "operator>>") and n.get("k") == "ocall":
            pt = [strip_cvref(p) for p in n.get("pt", ())]
            if any(p in REALS for p in pt):
                ops.append((base_var((n.get("a") or [None])[0]), n.get("l", F.line)))
    scan(F.j["b"], see)
    for b, l in ops:
        if b in made and b not in imbued:
            bad.append((True, l, "a stream converts a real number with the global locale"))


def base_var(n):
    """The variable a chain of stream operations starts from."""
    while isinstance(n, dict):
        if n.get("k") == "ref":
            return n.get("id")
        if n.get("k") == "member":
            n = n.get("b")
        elif n.get("k") in ("ocall", "call"):
            n = (n.get("a") or [None])[0]
        elif n.get("k") == "mcall":
            n = n.get("obj")
        elif n.get("k") == "cast":
            n = n.get("e")
        else:
            return None
    return None


def uses(v, funs):
    """(function, reference node, ancestors) of every mention of a variable with static storage."""
    for F in funs:
        hits = []

        def see(n, up):
            if n.get("k") == "ref" and n.get("rk") in ("global", "slocal") and n.get("qn") == v["qn"] and n.get("n") == v["qn"].split("::")[-1]:
                hits.append((n, up))
        scan(F.j["b"], see)
        for n, up in hits:
            if v["slocal"] and F.file != v["file"]:
                continue
            yield F, n, up


def read_only(n, up):
    """Is this mention a read (or a const use) of the variable?"""
    x = n
    for u in reversed(up):
        if x.get("ro") or x.get("cq") or x.get("gconst"):
            return True
        k = u.get("k")
        if k == "member" and u.get("b") is x:
            if u.get("arrow"):
                return None
            x = u
            continue
        if k == "mcall" and u.get("obj") is x:
            return True if u.get("mc") else False
        if k == "ocall":
            if u.get("member") and (u.get("a") or [None])[0] is x:
                if u.get("mc"):
                    return True
                return False
            return None
        if k in ("assign", "binop", "unop") or "op" in u:
            return False
        return None
    return None


def storage(ctx, v, funs, statics):
    name = v["qn"].split("::")[-1]
    where = f"{os.path.relpath(v['file'], base.REPO)}:{v['l']} ({v['qn']})"
    us = list(uses(v, funs))
    if not v["const"]:
        if not us:
            ctx.check(True, f"{name}:storage", where, "never used")
            return
        if LOCKS.search(strip_cvref(v["t"])):
            ctx.check(None, f"{name}:storage", where, "a lock")
            return
        ro = [read_only(n, up) for F, n, up in us]
        if not all(ro):
            k = next(i for i, x in enumerate(ro) if not x)
            F = us[k][0]
            ctx.check(False if any(x is False for x in ro) or v["slocal"] or v["tls"] else None, f"{name}:storage", where,
                      f"mutable state that outlives the call, used in {F.qn.split('::')[-1]} (line {us[k][1].get('l', F.line)})")
            return
    s = statics.get((v["file"], v["l"], name))
    if s is not None:
        F, d = s
        dep = []

        def see(n, up):
            if n.get("k") == "this" or (n.get("k") == "ref" and n.get("rk") in ("param", "local", "binding") and n.get("val") is None and not inside_lambda(n, up)):
                dep.append(n.get("n", "the object"))
        if isinstance(d.get("i"), dict):
            scan(d["i"], see)
        if dep:
            ctx.check(False, f"{name}:storage", where, f"initialised once from {dep[0]} of the first call of {F.qn.split('::')[-1]}")
            return
    if indirect(v["t"]):
        ro = [through(n, up) for F, n, up in us]
        ctx.check(False if any(x is False for x in ro) else True if all(x is True for x in ro) and ro else None, f"{name}:storage", where,
                  "an object shared by all calls" if us else "an unused pointer")
        return
    ctx.check(True, f"{name}:storage", where, "constant")


def inside_lambda(n, up):
    return any(u.get("k") == "lambda" for u in up)


def indirect(t):
    b, a = ptype(t)
    if b == "*":
        return not t.startswith("const ")
    if b in ("std::shared_ptr", "std::unique_ptr", "std::reference_wrapper"):
        return not a[0].startswith("const ")
    return any(indirect(x) for x in a) if b.startswith("std::") else False


def through(n, up):
    """Is the object behind a constant pointer only read?"""
    for u in reversed(up):
        k = u.get("k")
        if k == "ocall" and u.get("op") in ("->", "*"):
            continue
        if k == "mcall":
            return True if u.get("mc") else False
        return None
    return None


def mutables(ctx, funs):
    n = 0
    for r in {r["qn"]: r for r in ctx.prog.records.values()}.values():
        if not os.path.relpath(r.get("file", "/"), base.REPO).startswith("src/"):
            continue
        for f in r.get("fields", ()):
            n += 1
            if not f.get("mut") or LOCKS.search(strip_cvref(f["t"])):
                continue
            hits = []
            for F in funs:
                def see(x, up):
                    if x.get("k") == "member" and x.get("n") == f["n"] and x.get("mut"):
                        hits.append((F, x, read_only(x, up + ())))
                scan(F.j["b"], see)
                if F.j.get("ctor"):
                    continue
            wr = [h for h in hits if not h[2] and not h[0].j.get("ctor")]
            ctx.check(False if wr else True, f"{r['qn'].split('::')[-1]}.{f['n']}:mutable", f"{os.path.relpath(r['file'], base.REPO)}:{r.get('l', 0)} ({r['qn']})",
                      f"hidden state changed by {wr[0][0].qn.split('::')[-1]} (line {wr[0][1].get('l')})" if wr else "never changed")
    ctx.count("fields", n)
    ctx.check(True, "fields:mutable", "src", f"{n} fields examined")


def reads(ctx):
    for qn, F, r in all_runs(ctx):
        told = set()
        for e in r.events:
            if e.kind == "uninit" and e.line not in told:
                told.add(e.line)
                ctx.check(False if e.st.exact else None, f"{qn.split('::')[-1]}:uninit", e.where(), f"reads {e.data['name']} before it is set")
        if not told:
            ctx.check(True, f"{qn.split('::')[-1]}:init", F, "every variable is set before it is read")
        r.events.clear()
        r.paths.clear()


c05.__doc__ = RULE5
