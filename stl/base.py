"""Frame shared by the checks: export /repo's current source, run a rule set, report."""
import glob, json, os, re, signal, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STL_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
EVID = os.environ.get("STL_EVIDENCE", os.path.join(ROOT, "evidence"))
LIMIT = {"quick": 600, "thorough": 840}
sys.path.insert(0, os.path.join(ROOT, "stl"))
from model import Program, Broken          # noqa: E402
import run as _run                         # noqa: E402
from engine import TooBig                  # noqa: E402

FLAGS = ["-std=gnu++17", "-DNDEBUG", "-DFMT_SHARED"]
INCS = ["src/include", "src/parser", "src/robust_semantics"]


def build_exporter():
    exe = os.path.join(BUILD, "stlx")
    src = os.path.join(ROOT, "tool", "export.cc")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    fl = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.split()
    fl = [f for f in fl if not f.startswith("-std=")]
    tmp = exe + f".{os.getpid()}"
    r = subprocess.run(["g++", "-std=c++17", "-O1", "-fno-rtti", "-w", *fl, src, "-o", tmp, "-L/usr/lib/llvm-18/lib",
                        "-l:libclang-cpp.so.18.1", "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("exporter does not build: " + r.stderr[:400])
    os.replace(tmp, exe)
    return exe


def sources():
    out = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cc"), recursive=True))
    return [s for s in out if "python" not in os.path.relpath(s, REPO)]


def export(driver=True):
    exe = build_exporter()
    d = os.path.join(BUILD, f"x{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    jobs = [(os.path.relpath(s, REPO).replace("/", "_")[:-3], s, []) for s in sources()]
    if driver:
        jobs.append(("driver", os.path.join(ROOT, "tool", "driver.cc"), []))

    def one(j):
        name, src, extra = j
        o = os.path.join(d, name + ".json")
        r = subprocess.run([exe, REPO, o, src, *extra, "--", *FLAGS, *[f"-I{REPO}/{i}" for i in INCS]],
                           capture_output=True, text=True)
        return name, o, r
    files, errs = [], []
    with ThreadPoolExecutor(8) as ex:
        for name, o, r in ex.map(one, jobs):
            log = r.stdout + r.stderr
            bad = [l for l in log.splitlines() if re.search(r"error:", l) and REPO + "/" in l.split("error:")[0]]
            if not os.path.exists(o):
                raise Broken(f"no export of {name}: {log[:300]}")
            errs += bad
            files.append((name, o))
    prog = Program(files)
    for _, o in files:
        os.unlink(o)
    os.rmdir(d)
    return prog, errs


class Ctx:
    def __init__(self, prog, pid, tier, seed):
        self.prog, self.pid, self.tier, self.seed = prog, pid, tier, seed
        self.obl = []            # (status, key, where, text)
        self.functions = {}
        self.counts = {}
        self.notes = []
        self.final = set()       # keys that do not depend on loops
        self.budget = 240.0 if tier == "quick" else 400.0

    # ---- analysing -------------------------------------------------------------
    def note_fn(self, F):
        self.functions[F.qn] = f"{os.path.relpath(F.file, REPO)}:{F.line}"

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def analyse(self, F, *a, **k):
        self.note_fn(F)
        k.setdefault("budget", self.budget)
        r = _run.analyse(self.prog, F, *a, **k)
        self.tally(r)
        return r

    def construct(self, F, *a, **k):
        self.note_fn(F)
        k.setdefault("budget", self.budget)
        r = _run.construct(self.prog, F, *a, **k)
        self.tally(r)
        return r

    def tally(self, r):
        self.count("paths", len(r.paths))
        self.count("events", len(r.events))
        self.count("loops", len(r.loops))
        self.count("loop_edges", sum(len(l.edges) for l in r.loops.values()))
        if not r.ok:
            self.notes.append(f"{r.F.qn}: {r.why}")

    def fns(self, qn, pred=None):
        """Definitions of qn, one per source entity."""
        seen, out = set(), []
        for F in self.prog.by_qn.get(qn, []):
            k = (F.file, F.line, tuple(p["ct"] for p in F.params), tuple(F.j.get("ta") or ()), F.j.get("clst"))
            if k in seen or (pred and not pred(F)):
                continue
            seen.add(k)
            out.append(F)
        return out

    # ---- obligations -----------------------------------------------------------
    def check(self, ok, key, where, text):
        """ok: True proved, False refuted, None undecided."""
        st = {True: "proved", False: "refuted", None: "undecided"}[ok]
        self.obl.append((st, key, self.loc(where), text))

    def missing(self, what):
        self.obl.append(("undecided", "anchor", "-", f"not found in the source: {what}"))

    def loc(self, w):
        if w is None:
            return "-"
        if isinstance(w, str):
            return w.replace(REPO + "/", "")
        if hasattr(w, "file"):
            return f"{os.path.relpath(w.file, REPO)}:{w.line} ({w.qn})"
        return str(w)


class OutOfTime(BaseException):
    pass


def known():
    """known-findings file: 'finding: property=<id> key=<key> ...' suppresses that key."""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s*(.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


DEPTHS = (2, 3, 4)


def confirm(ctx, rule, until):
    """A loop invariant may be too weak to prove an obligation that holds. An obligation that is refuted in
    the general analysis is an alarm only if it is also refuted on the executions with few iterations of every
    loop, which need no invariants - or if it cannot be examined there."""
    import loops
    bad = {o[1] for o in ctx.obl if o[0] == "refuted"} - ctx.final
    if not bad:
        return
    sure, seen, tried = set(), set(), 0
    for d in DEPTHS:
        left = min(until - time.time() - 20, 200)
        if left < 30 or sure & bad:
            break
        c = Ctx(ctx.prog, ctx.pid, ctx.tier, ctx.seed)
        c.errs, c.budget = getattr(ctx, "errs", []), min(c.budget, left)
        loops.UNROLL = d
        signal.alarm(int(left))
        try:
            rule(c)
        except OutOfTime:
            break
        except (Exception, RecursionError):
            break
        finally:
            signal.alarm(0)
            loops.UNROLL = 0
        tried = d
        sure |= {o[1] for o in c.obl if o[0] == "refuted"}
        # a function may be held against another contract here: it is refuted all the same
        keys, heads = {o[1] for o in c.obl}, {o[1].split(":")[0] for o in c.obl if o[0] == "refuted"}
        sure |= {k for k in bad - keys if k.split(":")[0] in heads}
        und = {o[1] for o in c.obl if o[0] == "undecided"}
        seen = {o[1] for o in c.obl if o[0] == "proved"} - und
        if und <= {o[1] for o in ctx.obl if o[0] == "undecided"}:
            # obligations that are only recorded where they fail
            seen |= bad - {o[1] for o in ctx.obl if o[0] == "proved"}
        if os.environ.get("STL_DEBUG"):
            print("confirm", d, "refuted", sorted(bad), "confirmed", sorted(bad & sure), "not", sorted(bad & seen - sure))
    if not tried:
        return
    gone = (bad - sure) & seen
    ctx.obl = [("undecided", k, w, f"(not refuted on up to {tried} iterations) {t}") if s == "refuted" and k in gone else (s, k, w, t)
               for s, k, w, t in ctx.obl]


def main(pid, rule, title, level="other"):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        prog, errs = export()
    except Broken as e:
        print(f"ERROR {e}")
        return 2
    ctx = Ctx(prog, pid, tier, seed)
    ctx.errs = errs


    def late(*_):
        raise OutOfTime()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(LIMIT.get(tier, 600) - (time.time() - t0)))
    try:
        rule(ctx)
    except OutOfTime:
        ctx.obl.append(("undecided", "time", "-", "the time limit was reached before all obligations were examined"))
    except (Exception, RecursionError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.obl.append(("undecided", "analysis", "-", f"the analysis does not cover this source: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})"))
        if os.environ.get("STL_DEBUG"):
            traceback.print_exc()
    signal.alarm(0)
    confirm(ctx, rule, t0 + LIMIT.get(tier, 600))
    kn = known()
    seen, viol, finds = set(), [], []
    for st, key, where, text in ctx.obl:
        if st != "refuted":
            continue
        if (pid, key) in kn:
            if key not in seen:
                finds.append(f"KNOWN-FINDING: property={pid} {kn[(pid, key)] or key}")
        elif (key, where) not in seen:
            viol.append({"key": key, "where": where, "what": text})
        seen.add(key)
        seen.add((key, where))
    n = len(ctx.obl)
    proved = sum(o[0] == "proved" for o in ctx.obl)
    und = [o for o in ctx.obl if o[0] == "undecided"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": rule.__doc__ and " ".join(rule.__doc__.split()) or title,
            "obligations": n, "discharged": proved, "refuted": sum(o[0] == "refuted" for o in ctx.obl),
            "undecided": len(und),
            "functions_analysed": ctx.functions,
            **{f"n_{k}": v for k, v in sorted(ctx.counts.items())},
            "translation_units": [t.name for t in prog.tus],
            "undecided_obligations": [f"{o[1]} @ {o[2]}: {o[3]}" for o in und[:20]],
            "samples": [f"{o[0]}: {o[1]} @ {o[2]}: {o[3]}" for o in pick(ctx.obl, 12)],
            "notes": ctx.notes[:20],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in finds:
        print(l)
    for o in und[:12]:
        print(f"UNDECIDED {o[1]} @ {o[2]}: {o[3][:200]}")
    print(f"{pid}: {n} obligations, {proved} discharged, {len(und)} undecided, {len(viol)} violated; "
          f"{len(ctx.functions)} functions, {ev['wall_s']} s")
    if viol:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        rp = os.path.join(BUILD, "replay", pid + ".json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "title": title, "violations": viol}, f, indent=1)
        for v in viol[:10]:
            print(f"  {v['key']} @ {v['where']}: {v['what'][:300]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def pick(xs, n):
    seen, out = set(), []
    for o in xs:
        if (o[1]) not in seen:
            seen.add(o[1])
            out.append(o)
    return out[:n]
