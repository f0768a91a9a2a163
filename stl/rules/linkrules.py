"""C23: declarations of the public headers against the definitions of the library."""
import os
import re

PUB = os.path.join("src", "include")


def public(ctx, j):
    import base
    return os.path.relpath(j["file"], base.REPO).startswith(PUB + os.sep)


def short(t):
    t = re.sub(r"std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string", t)
    t = re.sub(r"std::variant<signal_tl::ast::Const(, (?:std::shared_ptr<)?signal_tl::ast::\w+>?)+>", "Expr", t)
    return t


def header(j):
    return j["file"].endswith((".hpp", ".h", ".hh", ".ipp"))


def c23(ctx):
    """Every function, operator and variable declared in a header under src/include that is neither deleted nor pure
    is matched, by link name, with a definition: one with external linkage in a source file of the library, or an
    inline or template definition in a header. Definitions in headers must be inline or templates, a link name may
    be defined in one source file only, and a function declared without `inline` may not be defined inline in a
    source file (its definition would be emitted only where it is used)."""
    decls, defs, vdecls, vdefs, tpls = {}, {}, {}, {}, {}
    for tu in ctx.prog.tus:
        for d in tu.j["decls"]:
            if d["tpl"]:
                continue
            k = d["sym"] or (d["qn"] + "(" + ", ".join(d["pt"]) + ")")
            if d["def"]:
                defs.setdefault(k, {})[(d["file"], d["l"])] = d
            if public(ctx, d):
                decls.setdefault(k, []).append(d)
        for v in tu.j["vars"]:
            if v["slocal"]:
                continue
            k = v["sym"] or v["qn"]
            if v["def"]:
                vdefs.setdefault(k, {})[(v["file"], v["l"])] = v
            if public(ctx, v):
                vdecls.setdefault(k, []).append(v)
        for t in tu.j["templates"]:
            if public(ctx, t):
                tpls.setdefault((t["qn"], tuple(t["pt"])), []).append(t)
    if not decls:
        ctx.missing("declarations in public headers")
    for k, ds in sorted(decls.items()):
        d = ds[0]
        sig = f"{d['qn']}({', '.join(short(x) for x in d['pt'])})"
        where = f"{d['file']}:{d['l']} ({d['qn']})"
        if any(x["deleted"] for x in ds) or any(x["pure"] for x in ds):
            ctx.check(True, f"declared:{sig}", where, "deleted or pure virtual")
            continue
        df = defs.get(k, {})
        ctx.count("declarations")
        here = [x for x in df.values() if header(x)]
        cc = [x for x in df.values() if not header(x)]
        ok = [x for x in cc if x["ext"] and (not x["inl"] or any(y["inl"] for y in ds))] + here
        if df and not ok:
            ctx.check(False, f"linkage:{sig}", where, f"{sig} is declared in a public header, but its definition in the library has internal linkage or is inline in a source file")
            continue
        ctx.check(bool(ok), f"undefined:{sig}", where, f"{sig} is declared in a public header and " + ("defined" if ok else "defined nowhere in the library: a program that uses it does not link"))
        if here:
            x = here[0]
            free = x["inl"] or not x["ext"]
            ctx.check(free, f"multiple:{sig}", f"{x['file']}:{x['l']} ({d['qn']})", f"{sig} is defined in a header" + ("" if free else " without inline: two units that include it do not link"))
        if len(cc) > 1:
            ctx.check(False, f"multiple:{sig}", where, f"{sig} is defined in {len(cc)} source files: the library does not link")
    for k, vs in sorted(vdecls.items()):
        v = vs[0]
        if not v["ext"]:
            continue
        where = f"{v['file']}:{v['l']} ({v['qn']})"
        df = vdefs.get(k, {})
        ctx.count("variables")
        ctx.check(bool(df), f"undefined:{v['qn']}", where, f"variable {v['qn']} declared in a public header is " + ("defined" if df else "defined nowhere"))
        bad = [x for x in df.values() if header(x) and not x["inl"]]
        if bad:
            ctx.check(False, f"multiple:{v['qn']}", where, f"variable {v['qn']} is defined in a header without inline")
    for (qn, pt), ts in sorted(tpls.items()):
        t = ts[0]
        ok = any(x["def"] or x["deleted"] or x["pure"] for x in ts)
        if not ok and any(x["spec"] for x in ts):
            ok = None
        if not ok:
            # an explicit instantiation or specialisation in a source file may provide what is used
            if any(d["qn"] == qn and d["tpl"] and d["def"] for tu in ctx.prog.tus for d in tu.j["decls"]):
                ok = None
        ctx.count("templates")
        ctx.check(ok, f"undefined:{qn}", f"{t['file']}:{t['l']} ({qn})", f"function template {qn} declared in a public header is " + ("defined there" if ok else "not defined there"))
