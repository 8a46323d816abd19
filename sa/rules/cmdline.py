"""C35: the command line client does what its command says"""
from itertools import product
from core import prop
from absint import TOP, TRUE, FALSE, UNIT, agg, boolean
from values import PANIC, sym
from rules.codec import pv
from rules.serving import Cli, root

POS = lambda k: sym("argument", f"position {k}")
ID = lambda x: sym("uuid", x)
NAME = lambda x: sym("identifier", x)
ALLV, ALLE = agg("AllVertexQuery"), agg("AllEdgeQuery")


class Client(Cli):
    """the outcome of each parse and each call is chosen freely and logged"""
    def either(self, env, good, what):
        return [(agg("Ok", good), env), (agg("Err", sym("error of", what)), self.log(env, ("failed", what)))]

    def intercept(self, fn, args, vs, env):
        lab, last = fn.label(), fn.label().split("::")[-1]
        vs = [self.solidall(env, v) for v in vs]
        if fn.crate == "indradb_proto" and lab.startswith("Client::"):
            return [(sym("call", last, tuple(vs[1:] if last != "new" else vs)), env)]
        if fn.crate == "indradb":
            if lab == "Identifier::new" or last == "from_str" and "Identifier" in lab:
                return self.either(env, NAME(vs[0]), "parse")
            if last == "from_str" and "Json" in lab:
                return self.either(env, sym("json", vs[0]), "parse")
            if last in ("properties", "count", "include", "outbound", "inbound", "with_property", "with_property_equal_to") and "QueryExt" in fn.path:
                return [(agg("Ok", sym(last, *vs)), env), (agg("Err", sym("error of", last)), self.log(env, ("failed", "query")))]
            if lab.endswith("Query::name") or lab.endswith("Query::limit") or lab.endswith("Query::t"):
                return [(sym(last, *vs), env)]
            if last == "generate_uuid_v1":
                return [(sym("fresh uuid"), env)]
            if last.startswith("extract_"):
                return [(agg("Some", sym(last, vs[0])), env)]
        return None

    def special(self, path, name, short, args, vs, env, c):
        v = self.solidall(env, vs[0]) if vs else None
        if path.startswith("uuid::") and name in ("parse_str", "try_parse") or name == "from_str" and "uuid::Uuid" in c.get("self", "") or name in ("parse", "from_str") and any("uuid::Uuid" in x for x in c.get("targs", [])):
            return self.either(env, ID(v), "parse")
        if path.startswith("serde_json::") and name == "from_str":
            return self.either(env, sym("json", v), "parse")
        if name in ("try_into", "try_from") and v is not None and v[0] == "sym":
            return self.either(env, sym("endpoint", v), "parse")
        if name == "_print":
            return [(UNIT, self.log(env, ("print", v)))]
        r = super().special(path, name, short, args, vs, env, c)
        if r is not None:
            return r
        if short.startswith("Builder::") and "tokio" in path:
            return agg("Ok", sym("runtime")) if name == "build" else sym("runtime builder")
        return None

    def ready(self, v, env):
        if v[0] == "sym" and v[1] == "call":
            name, args = v[2]
            e = self.log(env, ("call", name, args))
            bad = (agg("Err", sym("error of", name)), self.log(e, ("failed", name)))
            if name == "new":
                return [(agg("Ok", sym("client")), e), bad]
            if name.startswith("create_"):
                return [(agg("Ok", TRUE), e), (agg("Ok", FALSE), self.log(e, ("failed", "not created"))), bad]
            return [(agg("Ok", sym("response of", name)), e), bad]
        return super().ready(v, env)


def edge(k=1):
    return agg("Edge", outbound_id=ID(POS(k)), t=NAME(POS(k + 1)), inbound_id=ID(POS(k + 2)))


def commands():
    """(subcommands, optional arguments given, call, arguments, what is printed)"""
    V = agg("SpecificVertexQuery", ids=("vec", (ID(POS(1)),)))
    E = agg("SpecificEdgeQuery", edges=("vec", (edge(),)))
    out = lambda f: sym(f, sym("response of", "get"))
    opt = lambda n: sym("argument", n)
    yield ("ping",), (), "ping", (), None
    for given in ((), ("id",)):
        v = agg("Vertex", id=ID(opt("id")) if given else sym("fresh uuid"), t=NAME(POS(1)))
        yield ("set", "vertex"), given, "create_vertex", (v,), v
    yield ("set", "edge"), (), "create_edge", (edge(),), edge()
    yield ("set", "vertex-property"), (), "set_properties", (V, NAME(POS(2)), sym("json", POS(3))), None
    yield ("set", "edge-property"), (), "set_properties", (E, NAME(POS(4)), sym("json", POS(5))), None
    yield ("count", "vertex"), (), "get", (sym("count", ALLV),), out("extract_count")
    yield ("count", "edge"), (), "get", (sym("count", ALLE),), out("extract_count")
    for verb in ("get", "delete"):
        yield (verb, "vertex"), (), verb, (V,), out("extract_vertices")
        yield (verb, "edge"), (), verb, (E,), out("extract_edges")
        for kind, q, n in (("vertex", V, 2), ("edge", E, 4)):
            if verb == "delete":
                yield (verb, kind + "-property"), (), verb, (sym("name", sym("properties", q), NAME(POS(n))),), None
            else:
                yield (verb, kind + "-property"), (), verb, (sym("properties", q),), out(f"extract_{kind}_properties")
                yield (verb, kind + "-property"), ("name",), verb, (sym("name", sym("properties", q), NAME(opt("name"))),), out(f"extract_{kind}_properties")


def norm(v):
    """aggregates without the order in which their fields are listed"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "agg" and isinstance(v[2], tuple):
            return ("agg", v[1], frozenset((k, norm(x)) for k, x in v[2]))
        return tuple(norm(x) for x in v)
    return v


def within(v, x):
    return v == x or isinstance(v, (tuple, frozenset)) and any(within(y, x) for y in v)


@prop("C35")
def client_commands(ctx, rep):
    """each command of the command line client: one call, of what its arguments say"""
    F = ctx.F
    fs = [f for f in F.find(kind="fn") if f.crate.startswith("indradb_client") and f.label() == "main"]
    if len(fs) != 1:
        rep.missing("client main")
        return
    f = fs[0]
    for g in F.find(kind="fn"):
        if g.crate.startswith("indradb_client") and g.file.endswith("client/src/main.rs"):
            rep.analysed(g)
    for cmd, given, call, cargs, shown in commands():
        A = Client(F, cmd, set(given))
        at = f"the command {' '.join(cmd)}" + "".join(f" --{x}" for x in given)
        key = " ".join(cmd + given)
        ends = set()
        for v, env in root(A, f, [], {}, rep):
            v = A.solidall(env, v)
            log = env.get(("log",), ())
            calls = [x[1:] for x in log if x[0] == "call"]
            fails = [x[1] for x in log if x[0] == "failed"]
            prints = [x[1] for x in log if x[0] == "print"]
            failed = v == PANIC or v[0] == "agg" and v[1] == "Err"
            new = [a for n, a in calls if n == "new"]
            other = [(n, a) for n, a in calls if n != "new"]
            ends.add(failed)
            rep.check(all(a == (sym("endpoint", sym("argument", "position 1")),) for a in new) and len(new) <= 1, f"connects: {key}", f"{at} connects to {', '.join(pv(a[0]) for a in new if a)}, expected the address given; {f.file}:{f.line}", f"{at}: connects to the address given")
            rep.check(all(norm(x) == norm((call, cargs)) for x in other) and len(other) <= 1, f"calls: {key}: {'; '.join(n + ' ' + ', '.join(map(pv, a)) for n, a in other)}"[:200],
                      f"{at} calls {'; '.join(n + '(' + ', '.join(map(pv, a)) + ')' for n, a in other)}, expected {call}({', '.join(map(pv, cargs))}); {f.file}:{f.line}", f"{at}: {call}({', '.join(map(pv, cargs))})"[:160])
            rep.check(failed == bool(fails), f"ends: {key}: {fails}: {pv(v)}"[:200], f"{at} ends with {pv(v)[:120]} after {', '.join(fails) or 'no failure'}; {f.file}:{f.line}", f"{at}: fails exactly if something failed")
            if not fails and not failed:
                rep.check(len(other) == 1, f"no call: {key}", f"{at} ends well without calling {call}; {f.file}:{f.line}", f"{at}: one call")
                if shown is not None and call != "delete":
                    rep.check(any(within(norm(x), norm(shown)) for x in prints), f"prints: {key}: {[pv(x) for x in prints]}"[:200], f"{at} prints {', '.join(pv(x)[:100] for x in prints) or 'nothing'}, expected {pv(shown)}; {f.file}:{f.line}", f"{at}: prints {pv(shown)}"[:160])
        rep.check(len(ends) == 2, f"one end: {key}", f"{at} can only {'fail' if ends == {True} else 'succeed'}; {f.file}:{f.line}", f"{at}: may succeed or fail")
