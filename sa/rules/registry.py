"""C41: what plugin libraries register, and what the greeting plugin answers"""
import os
import re
import subprocess
from core import *
from extract import REPO
from rules.causes import Causes, bare, given
from rules.jsonval import pj
from rules.queries import *
from absint import Stuck, TOP, UNIT
from values import sym

SE, SF, ST = (0, "self"), (0, "formatter"), (0, "transaction")
# library crate -> the plugins it offers: name -> type
OFFERED = {"indradb_plugin_hello_world": {"hello_world": "HelloWorldPlugin"}, "indradb_plugin_naive_vertex_count": {"naive_vertex_count": "NaiveVertexCountPlugin"}}


class Greeting(Causes):
    def special(self, path, name, short, args, vs, env, c):
        vs = [self.solidall(env, v) for v in vs]
        if name in ("new_debug", "new_lower_hex", "new_upper_hex") and len(vs) == 1:
            return sym("debugged", vs[0])
        if name in ("add", "concat") and len(vs) == 2 and all(self.said(v) is not None for v in vs):
            return ("text", self.said(vs[0]) + self.said(vs[1]))
        if name in ("push_str", "push", "add_assign", "extend") and len(vs) == 2 and all(self.said(v) is not None for v in vs) and "Vec" not in path:
            return [(UNIT, self.upd(env, args[0], ("text", self.said(vs[0]) + self.said(vs[1]))))]
        return super().special(path, name, short, args, vs, env, c)


    def said(self, v):
        return v[1] if v[0] == "text" else (v,) if v[0] == "lit" or given(v) or v[0] == "sym" and v[1] == "debugged" else None


def run(rep, A, f, args, env):
    rep.analysed(f)
    try:
        return [(A.solidall(e, v), e) for v, e in A.run(f, args, env)]
    except Stuck:
        rep.missing(f.label() + ": not decided within its budget")
        return []
    finally:
        rep.steps += A.steps


def written(ps):
    """a text as a list of strings and values, from the template of format_args! and its arguments"""
    ps, r = list(map(bare, ps)), []
    while ps:
        p = ps.pop(0)
        if p[0] == "lit":
            r.append(str(p[1]))
            continue
        if p[0] != "vec" or not all(x[0] == "i" for x in p[1]):
            r.append(p)
            continue
        bs = [x[1] for x in p[1]]
        while bs:
            n = bs.pop(0)
            if n == 0:
                break
            if n < 0x80:
                r.append(bytes(bs[:n]).decode("utf8", "replace"))
                bs = bs[n:]
            elif n == 0xC0 and ps:
                r.append(ps.pop(0))
            else:
                return None
    out = []
    for x in r:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def texts(v):
    if v[0] == "text":
        return [v]
    return [t for _, x in v[2] for t in texts(x)] if v[0] == "agg" else []


def entries(v):
    """(name, plugin type) of each entry of a map built by insertions"""
    r = []
    for m in members(v):
        if m.op == "coll":
            for x in m.a[1]:
                x = strip(x)
                if x.op == "agg" and len(x.a[2]) == 2:
                    r.append((text(x.a[2][0][1]).strip("'"), text(x.a[2][1][1])))
                else:
                    r.append(("?", text(x)))
        else:
            r.append(("?", text(m)))
    return r


@prop("C41")
def registry(ctx, rep):
    """each register function, the version it declares, and the answer of hello_world"""
    F = ctx.F
    for crate, offered in OFFERED.items():
        fs = [f for f in F.find(kind="fn", crate=crate) if f.name == "register" and f.blocks and f.kind == "fn" and "{closure" not in f.path]
        fs = [f for f in fs if "PluginDeclaration" in f.locals[0][0]]
        if len(fs) != 1:
            rep.missing(f"register of {crate}")
            continue
        f = fs[0]
        rep.analysed(f)
        A = Analysis(F)
        A.run(f, {})
        top = next(x for x in A.frames.values() if x.parent is None)
        rets = [m for v in top.retw.values() for m in members(v)]
        rep.sites += len(A.events)
        C = Cond(A)
        X = QClauses(A, C)
        for e in A.events.values():
            if e.name in ("insert", "extend", "or_insert", "or_insert_with"):
                d = X.dnf(C.event(e))
                own = [c for c in d if not [a for a, _ in c if a.op != "iter"]]
                rep.check(bool(own), f"{crate}: registered only in some cases", f"register ({f.file}) adds a plugin only in some cases; {where(e)}", f"{crate}: added in every case")
        for m in rets:
            m = strip(m)
            fields = dict(m.a[2]) if m.op == "agg" else {}
            if not rep.check("entries" in fields and "version_info" in fields, f"{crate}: register gives {text(m)[:100]}", f"register ({f.file}) gives {text(m)[:200]}, not a declaration"):
                continue
            ver = text(fields["version_info"])
            rep.check(ver == "default(VersionInfo)" or re.search(r"VersionInfo\{rustc: '[^']+', plugin_interface: '\d+'\}$", ver) is not None and ver == host_version(ctx), f"{crate}: declares version {ver[:100]}",
                      f"register ({f.file}) declares the version {ver[:200]}, it must be the one of the plugin host it was built with", f"{crate}: declares the host's version")
            got = entries(fields["entries"])
            for n, ty in offered.items():
                mine = [t for x, t in got if x == n]
                rep.check(len(mine) == 1 and re.search(r"\b%s\b" % ty, mine[0]) is not None, f"{crate}: {n} is {mine}"[:200], f"register ({f.file}) offers {mine or 'nothing'} as {n}, it must be {ty}", f"{crate}: {n} = {ty}")
            extra = [x for x, _ in got if x not in offered]
            rep.check(not extra, f"{crate}: offers {extra}"[:200], f"register ({f.file}) also offers {extra}", f"{crate}: offers nothing else")
        # exported under its own name, which is what the server looks for
        src = "".join(open(os.path.join(REPO, p), errors="replace").read() for p in {f.file, "plugins/host/src/decl.rs"} if os.path.exists(os.path.join(REPO, p)))
        code = re.sub(r"//[^\n]*", "", src)
        rep.check(re.search(r"no_mangle|export_name\s*=\s*\"register\"", code) is not None, f"{crate}: register is not exported", f"register ({f.file}) is not exported under its name (no_mangle), so that the server does not find it", f"{crate}: register is exported")
    version(ctx, rep)
    greeting(ctx, rep)


def default_version(ctx):
    f = next((g for g in ctx.F.find(kind="fn", crate="indradb_plugin_host") if g.label() == "<VersionInfo as Default>::default"), None)
    if f is None:
        return None, None
    A = Analysis(ctx.F)
    A.run(f, {})
    top = next(x for x in A.frames.values() if x.parent is None)
    return f, {text(m) for v in top.retw.values() for m in members(v)}


def host_version(ctx):
    return next(iter(default_version(ctx)[1] or {None}))


def version(ctx, rep):
    f, got = default_version(ctx)
    if f is None:
        rep.missing("VersionInfo::default")
    else:
        rep.analysed(f)
        rustc = subprocess.run(["rustc", "+nightly", "--version"], capture_output=True, text=True).stdout.split()
        v = [re.search(r"rustc: '([^']*)', plugin_interface: '\d+'\}$", t) for t in got]
        ok = len(v) == 1 and v[0] is not None and len(rustc) > 1 and v[0].group(1) == rustc[1]
        rep.check(ok, f"VersionInfo::default: {sorted(got)}"[:200], f"VersionInfo::default ({f.file}) gives {sorted(got)}, it must be the full version of the compiler ({' '.join(rustc[1:2])}) and a fixed interface version", "VersionInfo::default: the compiler's full version")
    f = next((g for g in ctx.F.find(kind="fn", crate="indradb_plugin_host") if g.label() == "<VersionInfo as Display>::fmt"), None)
    if f is None:
        return rep.missing("Display of VersionInfo")
    parts = [sym("given", "VersionInfo", x) for x in ("rustc", "plugin_interface")]
    own = ("agg", "VersionInfo", tuple(zip(("rustc", "plugin_interface"), parts)))
    for v, e in run(rep, Greeting(ctx.F), f, [("ref", SE, ()), ("ref", SF, ())], {SE: own, SF: ("text", ())}):
        t = e.get(SF, TOP)
        ps = [bare(p) for p in t[1]] if t[0] == "text" else []
        lost = [p[2][1] for p in parts if p not in ps]
        rep.check(not lost, f"Display of VersionInfo leaves out {lost}", f"the text of a VersionInfo leaves out {', '.join(lost)}; {f.file}", "Display of VersionInfo: both versions")


def greeting(ctx, rep):
    fs = [f for f in ctx.F.find(kind="fn", crate="indradb_plugin_hello_world") if f.name == "call" and f.blocks and "HelloWorldPlugin" in f.label()]
    if len(fs) != 1:
        return rep.missing("HelloWorldPlugin::call")
    f, arg = fs[0], sym("given", "arg", "0")
    outs = run(rep, Greeting(ctx.F), f, [("ref", SE, ()), ("ref", ST, ()), arg], {SE: TOP, ST: TOP})
    if not outs:
        rep.missing("HelloWorldPlugin::call: no result")
    for v, e in outs:
        ts = texts(v)
        w = written(ts[0][1]) if len(ts) == 1 else None
        x, shape = v, []
        while x[0] == "agg" and len(x[2]) == 1:
            shape.append(x[1])
            x = x[2][0][1]
        shape = x[0] == "text" and [n for n in shape if n != "String"] == ["Ok", "Json"]
        rep.check(shape and w == ["hello, ", arg], f"hello_world answers {pj(v)[:120]}" if w is None else f"hello_world answers {w}"[:200], f"HelloWorldPlugin::call ({f.file}) answers {w if w is not None else pj(v)[:200]}, it must answer the string `hello, ` and the JSON text of its argument", "hello_world: greets its argument")
    A = Analysis(ctx.F)
    A.run(f, {i: mk("param", n) for i, n in ((1, "self"), (2, "txn"), (3, "arg"))})
    ops = sorted({e.name for e in A.events.values() if "Transaction" in e.path})
    rep.sites += len(A.events)
    rep.check(not ops, f"hello_world performs {ops}", f"HelloWorldPlugin::call ({f.file}) performs {ops} on the datastore", "hello_world: does nothing to the datastore")
