"""C37: errors keep what caused them"""
from core import prop
from absint import Stuck, TOP, UNIT, agg
from rules.compare import Compare
from rules.errors import clean_ty
from rules.jsonval import pj
from values import sym

SE, SF = (0, "error"), (0, "formatter")
PLAIN = ("String", "PathBuf", "VersionInfo", "str")  # parts that are no errors themselves
SHOWN = {"to_string_lossy", "display", "new_display", "new_debug", "as_str", "deref", "as_ref", "clone", "borrow", "to_owned", "into", "from", "as_deref", "into_owned", "new_lower_exp", "message"}


def given(v):
    return v[0] == "sym" and v[1] in ("given", "written")


def bare(v):
    return v[2][0] if v[0] == "sym" and v[1] == "written" else v


class Causes(Compare):
    def intercept(self, fn, args, vs, env):
        if len(vs) == 1 and given(vs[0]) and fn.name in SHOWN:
            return [(vs[0], env)]
        if len(vs) == 2 and given(vs[0]) and vs[1][0] == "text" and fn.name == "fmt":
            return [(agg("Ok", UNIT), self.upd(env, args[1], ("text", vs[1][1] + (vs[0],))))]
        return super().intercept(fn, args, vs, env)

    def special(self, path, name, short, args, vs, env, c):
        vs = [self.solidall(env, v) for v in vs]
        if name == "to_string" and len(vs) == 1 and given(vs[0]):
            return sym("written", bare(vs[0]))
        if name in SHOWN and len(vs) == 1 and (given(vs[0]) or vs[0][0] in ("lit", "text")):
            return vs[0]
        if len(vs) == 1 and name in ("new", "from", "into", "pin") and ("Box" in path or "Arc" in path or given(vs[0])):
            return vs[0]
        if "Arguments" in path and name in ("new", "new_v1", "from_str", "new_const", "from_str_nonconst"):
            return ("text", tuple(p for v in vs for p in (v[1] if v[0] == "vec" and not all(x[0] == "i" for x in v[1]) else [v])))
        if name in ("format", "must_use") and vs and vs[-1][0] == "text":
            return vs[-1]
        if name == "fmt" and len(vs) == 2 and vs[1][0] == "text":
            return [(agg("Ok", UNIT), self.upd(env, args[1], ("text", vs[1][1] + (vs[0],))))]
        if name in ("write_fmt", "write_str", "pad", "write_char") and vs[0][0] == "text":
            more = vs[1][1] if vs[1][0] == "text" else (vs[1],)
            return [(agg("Ok", UNIT), self.upd(env, args[0], ("text", vs[0][1] + more)))]
        return super().special(path, name, short, args, vs, env, c)


def kinds(F):
    """the error types of the workspace: name -> (path, [(variant, [(field, type)])])"""
    r = {}
    for f in F.find(kind="fn"):
        if (f.trait or "").split("<")[0].split("::")[-1] == "Display" and f.crate.startswith("indradb") and "/tests" not in f.file:
            r.setdefault((f.crate, f.self_ty), {})["fmt"] = f
        if f.name == "source" and (f.trait or "").split("::")[-1] == "Error" and f.crate.startswith("indradb"):
            r.setdefault((f.crate, f.self_ty), {})["source"] = f
        if f.name == "from" and f.trait and f.trait.split("<")[0] == "From" and f.crate.startswith("indradb"):
            r.setdefault((f.crate, f.self_ty), {}).setdefault("from", []).append(f)
    for (crate, ty), fs in r.items():
        ads = [a for p, a in F.adts.items() if p.split("::")[0] == crate and p.split("::")[-1] == ty]
        if ty and ty.endswith("Error") and len(ads) == 1:
            yield ty, [(n, [(x[0], clean_ty(x[1]).strip()) for x in xs]) for n, xs in ads[0]["variants"]], fs


def is_cause(t):
    return t.split("<")[0].split("::")[-1] not in PLAIN


@prop("C37")
def causes(ctx, rep):
    """each error type: what it is made from, what source() returns and what it writes, kind by kind"""
    F = ctx.F
    n = 0
    for ty, variants, fs in kinds(F):
        n += 1

        def run(f, args, env):
            A = Causes(F)
            rep.analysed(f)
            try:
                return [(A.solidall(e, v), e) for v, e in A.run(f, args, env)]
            except Stuck:
                rep.missing(f.label() + ": not decided within its budget")
                return []
            finally:
                rep.steps += A.steps
        texts = {}
        for name, parts in variants:
            own = [sym("given", name, x) for x, _ in parts]
            whole = ("agg", name, tuple((x, o) for (x, _), o in zip(parts, own)))
            inner = [o for (_, t), o in zip(parts, own) if is_cause(t)]
            where = (fs.get("source") or fs.get("fmt") or fs["from"][0]).file
            if "source" in fs:
                outs = run(fs["source"], [("ref", SE, ())], {SE: whole})
                if not outs:
                    rep.missing(f"{ty}::source of {name} gives nothing")
                for v, e in outs:
                    want = agg("Some", inner[0]) if inner else agg("None")
                    rep.check(v == want, f"{where} {ty}: source of {name}", f"{ty}::source of {name} gives {pj(v)[:120]}, it must give {'the error it holds' if inner else 'nothing'}; {where}", f"{ty}::source of {name}")
            else:
                rep.check(not inner, f"{where} {ty}: no source of {name}", f"{ty} has no source() although {name} holds another error; {where}", f"{ty} has no source to give")
            if "fmt" in fs:
                outs = run(fs["fmt"], [("ref", SE, ()), ("ref", SF, ())], {SE: whole, SF: ("text", ())})
                if not outs:
                    rep.missing(f"{ty} of {name}: writes nothing")
                for v, e in outs:
                    t = e.get(SF, TOP)
                    ps = tuple(map(bare, t[1])) if t[0] == "text" else ()
                    said = [p for p in ps if not given(p)]
                    lost = [x for (x, _), o in zip(parts, own) if o not in ps]
                    rep.check(not lost and bool(ps), f"{where} {ty}: message of {name}", f"the message of {ty}::{name} leaves out {', '.join(lost) or 'everything'}; {fs['fmt'].file}", f"{ty}: message of {name}")
                    if not parts:
                        texts.setdefault(repr(said), set()).add(name)
            elif parts:
                rep.missing(f"Display of {ty}")
        for t, ns in texts.items():
            rep.check(len(ns) == 1, f"{ty}: {' and '.join(sorted(ns))} write the same", f"{ty}: {' and '.join(sorted(ns))} write the same message, so they cannot be told apart", f"{ty}: message of {sorted(ns)[0]} is its own")
        for f in fs.get("from", ()):
            argty = clean_ty(f.locals[1][0]).strip()
            exact = [(v, x) for v, ps in variants for x, t in ps if t == argty and len(ps) == 1]
            boxed = [(v, x) for v, ps in variants for x, t in ps if "dyn" in t and "Error" in t and len(ps) == 1]
            alone = [v for v, ps in variants if not ps]
            a = sym("given", "argument")
            for v, e in run(f, [a], {}):
                got = (v[1], dict(v[2])) if v[0] == "agg" else (None, {})
                if exact or boxed:
                    want = exact or boxed
                    ok = any(got[0] == k and got[1].get(x) == a for k, x in want)
                    what = " or ".join(k for k, _ in want) + " of the error given"
                else:
                    ok, what = got[0] in alone, "a kind of its own"
                short = argty
                rep.check(ok, f"{f.file} {ty}: from {short}", f"{ty} from {short} gives {pj(v)[:120]}, it must give {what}; {f.file}", f"{ty} from {short}")
    rep.check(n >= 6, f"{n} error types", f"only {n} error types were found", f"{n} error types")
