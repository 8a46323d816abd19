"""C22: plugin libraries are loaded, checked and kept; C30: the server binary serves what its command line asks for"""
from itertools import product
from core import prop
from absint import Stuck, TOP, TRUE, FALSE, UNIT, agg, boolean
from values import PANIC, sym
from world import World
from rules.codec import pv

LABEL = {"ok": "matching", "open": "that cannot be opened", "symbol": "without register", "rustc": "of another rustc", "interface": "of a newer plugin interface", "older": "of an older plugin interface"}


def mentions(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(mentions(y, x) for y in v)


def find(v, tag):
    """every aggregate of that name inside a value"""
    out = []
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "agg" and v[1] == tag:
            out.append(v)
        for y in v:
            out += find(y, tag)
    return out


class Loader(World):
    def __init__(self, F, fates):
        super().__init__(F)
        self.fates = fates  # path -> fate

    def watched(self, v):
        return any(mentions(v, sym(n, p)) for p in self.fates for n in ("library", "plugin"))

    def apply(self, f, args, env):
        f = self.val(env, f)
        if f[0] == "sym" and f[1] == "function":
            p = f[2][0]
            own = dict(self.own[2])
            ver = dict(own)
            if self.fates[p] == "rustc":
                ver["rustc"] = sym("rustc of", p)
            if self.fates[p] in ("interface", "older"):
                ver["plugin_interface"] = ("i", dict(own)["plugin_interface"][1] + (1 if self.fates[p] == "interface" else -1))
            v = agg("PluginDeclaration", version_info=("agg", "VersionInfo", tuple(ver.items())), entries=("vec", (agg("", sym("name", p), sym("plugin", p)),)))
            return [(v, self.log(env, ("register", p)))]
        return super().apply(f, args, env)

    def special(self, path, name, short, args, vs, env, c):
        v = vs[0] if vs else None
        tr = c.get("trait", "").split("::")[-1].split("<")[0]
        if short == "Library::new" or "libloading" in path and name in ("new", "open", "load_with_flags"):
            p = v
            if self.fates.get(p) == "open":
                return agg("Err", sym("cannot open", p))
            return [(agg("Ok", sym("library", p)), self.log(env, ("open", p)))]
        if v is not None and v[0] == "sym" and v[1] == "library" and name in ("get", "get_singlethreaded"):
            n = vs[1]
            n = bytes(x[1] for x in n[1]).decode() if n[0] == "vec" and all(x[0] == "i" for x in n[1]) else n[1] if n[0] in ("lit", "blit") else None
            if n is None or n.rstrip("\0") != "register":
                return agg("Err", sym("no such symbol", n))
            return agg("Err", sym("cannot find", v[2][0])) if self.fates[v[2][0]] == "symbol" else agg("Ok", sym("function", v[2][0]))
        if v is not None and v[0] == "sym" and v[1] == "function" and name in ("deref", "into_raw", "clone"):
            return v
        if tr == "PartialEq" and name in ("eq", "ne") and len(vs) == 2:
            a, b = vs
            if a[0] == "agg" and a[1] == b[1] == "VersionInfo":
                fs = [f for f in self.F.find(kind="fn") if f.label() == "<VersionInfo as PartialEq>::eq"]
                if fs:
                    rs = self.run(fs[0], args, env)
                    return [(boolean((x == TRUE) == (name == "eq")) if x in (TRUE, FALSE) else TOP, e) for x, e in rs]
            if a != TOP and b != TOP and a[0] in ("sym", "lit", "i"):
                return boolean((a == b) == (name == "eq"))
        if name in ("from", "into") and v is not None:
            return args[0]
        return None


@prop("C22")
def loading(ctx, rep):
    """every library opened, its version compared before any of its plugins is used, all plugins and libraries kept"""
    F = ctx.F
    fs = {f.label(): f for f in F.find(kind="fn", crate="indradb_proto")}
    f = fs.get("Server::new_with_plugins")
    d = [g for g in F.find(kind="fn", crate="indradb_plugin_host") if g.label() == "<VersionInfo as Default>::default"]
    if f is None or not d:
        rep.missing("Server::new_with_plugins" if f is None else "VersionInfo::default")
        return
    rep.analysed(f)
    rep.analysed(d[0])
    for g in F.find(kind="fn", crate="indradb_plugin_host"):
        if g.label() == "<VersionInfo as PartialEq>::eq":
            rep.analysed(g)
    own = World(F).run(d[0], [])
    rep.check(len(own) == 1 and own[0][0][1] == "VersionInfo" and all(x[0] in ("lit", "i") for _, x in own[0][0][2]), "own version", f"VersionInfo::default gives {[pv(v) for v, _ in own]}, expected the compiler and interface version of the build; {d[0].file}", "VersionInfo::default: constants of the build")
    own = own[0][0]
    paths = [sym("path", k) for k in range(3)]
    for n in range(4):
        for kinds in product(LABEL, repeat=n):
            if n == 3 and kinds[0] != "ok":
                continue
            fates = dict(zip(paths, kinds))
            A = Loader(F, fates)
            A.own = own
            what = "libraries " + ", ".join(LABEL[k] for k in kinds) if n else "no libraries"
            try:
                outs = A.run(f, [("ref", ("heap", "db"), ()), ("vec", tuple(paths[:n]))], {("heap", "db"): sym("database")})
            except Stuck:
                rep.missing("new_with_plugins: not decided within its budget")
                break
            finally:
                rep.steps += A.steps
            if not outs:
                rep.missing(f"new_with_plugins of {what} gives nothing")
            bad = next((k for k in range(n) if kinds[k] != "ok"), None)
            for v, env in outs:
                v = A.solidall(env, v)
                log = env.get(("log",), ())
                at = f"new_with_plugins of {what}"
                if v == PANIC:
                    rep.check(False, f"panics: {kinds}", f"{at} panics; {f.file}:{f.line}")
                    continue
                drops = [x for t, x in log if t == "drop"]
                for p in paths[:n]:
                    if ("register", p) not in log:
                        continue
                    lib = next((k for k, x in enumerate(drops) if mentions(x, sym("library", p))), None)
                    ent = [k for k, x in enumerate(drops) if mentions(x, sym("plugin", p))]
                    if lib is not None:
                        early = not ent or min(ent) > lib
                        rep.check(not early or mentions(drops[lib], sym("plugin", p)), f"unloaded first: {kinds}", f"{at} unloads {pv(p)} while plugins of it are still alive; {f.file}:{f.line}", f"{at}: plugins dropped before their library")
                if bad is None:
                    ok = v[0] == "agg" and v[1] == "Ok"
                    rep.check(ok, f"answer: {kinds}: {pv(v)}"[:200], f"{at} answers {pv(v)[:120]}, expected a server; {f.file}:{f.line}", f"{at}: a server")
                    if not ok:
                        continue
                    sv = dict(v[2][0][1][2])
                    rep.check(mentions(sv.get("db", TOP), sym("database")), f"database: {kinds}", f"{at} gives a server of {pv(sv.get('db', TOP))}, not of the database; {f.file}:{f.line}", f"{at}: serves the database")
                    pl = find(v, "Plugins")
                    if len(pl) != 1:
                        rep.check(False, f"plugins: {kinds}", f"{at} gives a server with {len(pl)} sets of plugins; {f.file}:{f.line}")
                        continue
                    names = [k for k, _ in pl[0][2]]
                    for p in paths[:n]:
                        ent = [k for k, x in pl[0][2] if mentions(x, agg("", sym("name", p), sym("plugin", p)))]
                        rep.check(bool(ent), f"plugins lost: {kinds}", f"{at} does not keep the plugins of {pv(p)}; {f.file}:{f.line}", f"{at}: all plugins kept")
                        gone = any(mentions(x, sym("library", p)) for x in drops)
                        rep.check(not gone, f"unloaded: {kinds}", f"{at} unloads {pv(p)}, whose plugins it serves; {f.file}:{f.line}", f"{at}: libraries kept loaded")
                        lib = [k for k, x in pl[0][2] if mentions(x, sym("library", p))]
                        rep.check(not ent or not lib or names.index(ent[0]) < names.index(lib[0]), "field order", f"Plugins drops its libraries (field {lib[:1]}) before the plugins in them (field {ent[:1]}); {f.file}:{f.line}", f"{at}: plugins are dropped before libraries")
                else:
                    p, k = paths[bad], kinds[bad]
                    if k in ("open", "symbol"):
                        ok = v[0] == "agg" and v[1] == "Err" and (mentions(v, sym("cannot open", p)) or mentions(v, sym("cannot find", p)))
                    else:
                        mm = find(v, "VersionMismatch")
                        fl = dict(mm[0][2]) if mm else {}
                        ok = v[0] == "agg" and v[1] == "Err" and fl.get("library_path") == p and fl.get("indradb_version_info") == own and fl.get("library_version_info", TOP)[0] == "agg" and fl["library_version_info"] != own
                    rep.check(ok, f"answer: {kinds}: {pv(v)}"[:200], f"{at} answers {pv(v)[:200]}, expected the error of {pv(p)}; {f.file}:{f.line}", f"{at}: the error")
    # the glob of run_with_plugins
    f = fs.get("run_with_plugins")
    if f is None:
        rep.missing("run_with_plugins")
        return
    rep.analysed(f)
    for kinds in [(), ("ok",), ("ok", "ok"), ("ok", "err"), ("err", "ok"), ("pattern",)]:
        for load in ("Ok", "Err"):
            A = Serve(F, kinds, load)
            for v, env in root(A, f, [("ref", ("heap", "db"), ()), sym("listener"), sym("pattern")], {("heap", "db"): sym("database")}, rep):
                v = A.solidall(env, v)
                log = env.get(("log",), ())
                at = f"run_with_plugins of files {kinds or 'none'}" + (" that do not load" if load == "Err" else "")
                loads = [x for t, *x in log if t == "load"]
                served = [x for t, *x in log if t == "serve"]
                if "err" in kinds or "pattern" in kinds:
                    rep.check(v[0] == "agg" and v[1] == "Err" and not served, f"glob error: {kinds}: {pv(v)}"[:200], f"{at} answers {pv(v)[:120]}, expected an error; {f.file}:{f.line}", f"{at}: an error")
                    continue
                want = tuple(sym("file", k) for k in range(len(kinds)))
                rep.check(loads == [[sym("database"), want]], f"loads: {kinds}: {loads}"[:200], f"{at} loads {[[pv(y) for y in x[1]] for x in loads]}, expected every file found; {f.file}:{f.line}", f"{at}: every file loaded")
                if load == "Err":
                    rep.check(v[0] == "agg" and v[1] == "Err" and not served, f"load error: {kinds}: {pv(v)}"[:200], f"{at} answers {pv(v)[:120]}, expected the error; {f.file}:{f.line}", f"{at}: the error")
                else:
                    check_served(rep, at, f, v, served, sym("server"), log)


def check_served(rep, at, f, v, served, server, log):
    rep.check(len(served) == 1, f"{f.label()} serves {len(served)}", f"{at} serves {len(served)} times; {f.file}:{f.line}", f"{at}: serves once")
    for svc, lst in served:
        rep.check(mentions(svc, server), f"{f.label()} serves {pv(svc)}"[:200], f"{at} serves {pv(svc)[:150]}, expected {pv(server)}; {f.file}:{f.line}", f"{at}: the server")
        rep.check(mentions(lst, sym("listener")), f"{f.label()} listens on {pv(lst)}"[:200], f"{at} listens on {pv(lst)[:150]}, not the listener; {f.file}:{f.line}", f"{at}: on the listener")
    want = "Err" if ("failed", "transport error") in log else "Ok"
    rep.check(v[0] == "agg" and v[1] == want, f"{f.label()} answers {pv(v)}"[:200], f"{at} answers {pv(v)[:150]}; {f.file}:{f.line}", f"{at}: answers as serving did")


def root(A, f, args, env, rep):
    """outcomes of a function, awaited if it is asynchronous"""
    try:
        outs = []
        for v, e in A.run(f, args, env):
            outs += A.ready(v, e)
        if not outs:
            rep.missing(f.label() + " gives nothing")
        return outs
    except Stuck:
        rep.missing(f.label() + ": not decided within its budget")
        return []
    finally:
        rep.steps += A.steps


class Serve(World):
    """the outside world of serving: sockets, globs, tonic"""
    def __init__(self, F, files=(), load="Ok"):
        super().__init__(F)
        self.files, self.load = files, load

    def intercept(self, fn, args, vs, env):
        lab = fn.label()
        if lab == "Server::new_with_plugins":
            e = self.log(env, ("load", self.solidall(env, vs[0]), self.items(vs[1]) or ()))
            return [(agg("Ok", sym("server")) if self.load == "Ok" else agg("Err", sym("load error")), e)]
        if lab.startswith("IndraDbServer::") and lab.split("::")[-1] in ("new", "from_arc", "with_interceptor"):
            return [(sym("service", self.solidall(env, vs[0])), env)]
        if lab.startswith("IndraDbServer::") and lab.split("::")[-1].startswith(("max_", "accept", "send")):
            return [(vs[0], env)]
        return None

    def special(self, path, name, short, args, vs, env, c):
        v = vs[0] if vs else None
        if path.startswith("glob::") and name in ("glob", "glob_with"):
            if "pattern" in self.files:
                return agg("Err", sym("bad pattern"))
            return agg("Ok", ("it", tuple(agg("Ok", sym("file", k)) if x == "ok" else agg("Err", sym("unreadable", k)) for k, x in enumerate(self.files))))
        if "tonic" in path or "tonic" in c.get("self", "") or v is not None and v[0] == "sym" and v[1] == "router":
            if name in ("add_service", "add_optional_service"):
                return sym("router", self.solidall(env, vs[1]), v)
            if name in ("serve_with_incoming", "serve_with_incoming_shutdown"):
                e = self.log(env, ("serve", v, self.solidall(env, vs[1])))
                return [(sym("serving"), e)]
            if name in ("builder", "default"):
                return sym("builder")
            if v == sym("builder"):
                return v
        if name in ("into_future",) and v == sym("serving"):
            return v
        return None

    def ready(self, v, env):
        if v == sym("serving"):
            return [(agg("Ok", UNIT), env), (agg("Err", sym("transport error")), self.log(env, ("failed", "transport error")))]
        return super().ready(v, env)


class Cli(World):
    """command lines: the subcommands chosen (cmd) and which optional arguments are given"""
    def __init__(self, F, cmd, given):
        super().__init__(F)
        self.cmd, self.given = cmd, given
        self.app = None

    def lit(self, v):
        return v[1] if v[0] == "lit" else pv(v)

    def special(self, path, name, short, args, vs, env, c):
        v = vs[0] if vs else None
        ty = short.split("::")[0]
        if path.startswith("clap::"):
            if ty in ("App", "SubCommand") and name in ("new", "with_name"):
                return sym("App", self.lit(v), ())
            if ty == "Arg" and name in ("with_name", "new"):
                return sym("Arg", self.lit(v), ())
            if v is not None and v[0] == "sym" and v[1] == "Arg":
                n, props = v[2]
                if name in ("short", "long", "default_value", "takes_value", "required", "index", "multiple", "env", "hidden", "default_value_os", "possible_values", "conflicts_with", "requires", "min_values", "number_of_values", "required_unless"):
                    return sym("Arg", n, tuple(x for x in props if x[0] != name) + ((name, vs[1] if len(vs) > 1 else TRUE),))
                return v
            if v is not None and v[0] == "sym" and v[1] == "App":
                n, parts = v[2]
                if name in ("arg", "subcommand"):
                    return sym("App", n, parts + (vs[1],))
                if name in ("args", "subcommands"):
                    return sym("App", n, parts + tuple(self.val(env, x) for x in self.items(vs[1]) or ()))
                if name.startswith("get_matches"):
                    self.app = v
                    return agg("Ok", sym("matches", v, 0)) if name.endswith("safe") else sym("matches", v, 0)
                return v
            if v is not None and v[0] == "sym" and v[1] == "matches":
                app, depth = v[2]
                subs = {x[2][0]: x for x in app[2][1] if x[1] == "App"}
                chosen = self.cmd[depth] if depth < len(self.cmd) and self.cmd[depth] in subs else None
                m = sym("matches", subs[chosen], depth + 1) if chosen else None
                if name == "subcommand_matches":
                    return agg("Some", m) if chosen and self.lit(vs[1]) == chosen else agg("None")
                if name == "subcommand_name":
                    return agg("Some", ("lit", chosen)) if chosen else agg("None")
                if name == "subcommand":
                    return agg("", ("lit", chosen or ""), agg("Some", m) if chosen else agg("None"))
                if name in ("value_of", "value_of_os", "value_of_lossy", "is_present", "occurrences_of"):
                    a = positions(app).get(self.lit(vs[1]))
                    if a is None:
                        return FALSE if name in ("is_present", "occurrences_of") else agg("None")
                    what, props = a
                    there = what in self.given or "default_value" in props or props.get("required") == TRUE
                    if name in ("is_present", "occurrences_of"):
                        return boolean(there)
                    return agg("Some", sym("argument", what)) if there else agg("None")
            if name == "exit":
                return PANIC
        if name == "parse" and v is not None and v[0] == "sym":
            return [(agg("Ok", sym("number", v)), env), (agg("Err", sym("not a number", v)), env)]
        if v is not None and v[0] == "sym" and name in ("to_os_string", "to_string", "to_owned", "into", "from", "into_owned", "to_string_lossy", "into_os_string", "as_os_str", "to_path_buf", "into_string"):
            return v
        if v is not None and v[0] == "lit" and name in ("eq", "ne") and len(vs) == 2 and vs[1][0] == "lit":
            return boolean((v == vs[1]) == (name == "eq"))
        return None


def positions(app):
    """{argument name: (its place on the command line, attributes)}"""
    out, k = {}, 0
    for x in app[2][1]:
        if x[0] == "sym" and x[1] == "Arg":
            props = dict(x[2][1])
            if "long" in props or "short" in props:
                out[x[2][0]] = (pv(props.get("long", props.get("short"))), props)
            else:
                k = props["index"][1] if "index" in props else k + 1
                out[x[2][0]] = (f"position {k}", props)
    return out


def declared(app):
    """{argument or subcommand path: attributes}"""
    out = {}
    for x in app[2][1]:
        if x[1] == "App":
            out[(x[2][0],)] = None
            for k, a in declared(x).items():
                out[(x[2][0],) + k] = a
    for what, props in positions(app).values():
        out[(what,)] = frozenset((k, pv(v)) for k, v in props.items() if k not in ("long", "index") and not (k in ("required", "takes_value") and v == FALSE))
    return out


ARGS = {
    ("address",): {"short": "a", "takes_value": "1", "default_value": "127.0.0.1:27615"},
    ("plugins",): {"short": "p", "takes_value": "1"},
    ("memory",): None,
    ("memory", "persist-path"): {"takes_value": "1"},
    ("rocksdb",): None,
    ("rocksdb", "position 1"): {"required": "1"},
    ("rocksdb", "max-open-files"): {"takes_value": "1", "default_value": "512"},
    ("rocksdb", "repair"): {"short": "r"},
}


class Start(Serve):
    """the server's start: the datastore it opens and what it serves"""
    def __init__(self, F, given, exists=False):
        super().__init__(F)
        self.cli, self.exists = given, exists

    def intercept(self, fn, args, vs, env):
        lab = fn.label()
        vs = [self.solidall(env, v) for v in vs]
        if fn.crate.startswith("indradb_server") and lab.split("::")[-1] == "parse_cli_args":
            return [(self.cli, env)]
        if fn.crate == "indradb" and lab.split("::")[0] in ("MemoryDatastore", "RocksdbDatastore"):
            n = lab.split("::")[-1]
            if n == "get_options":
                return [(sym("options", *vs), env)]
            db = sym(n, *vs)
            if n in ("new_db", "create_msgpack_db") and lab.startswith("Memory"):
                return [(db, self.log(env, ("open", db)))]
            if n in ("read_msgpack_db", "new_db", "new_db_with_options", "repair"):
                e = self.log(env, ("open", db))
                return [(agg("Ok", UNIT if n == "repair" else db), e), (agg("Err", sym("datastore error", n)), self.log(e, ("failed", "datastore error")))]
        if fn.crate == "indradb_proto" and lab in ("run", "run_with_plugins"):
            return [(sym("serving", *vs), self.log(env, ("serve", lab, *vs)))]
        return super().intercept(fn, args, vs, env)

    def special(self, path, name, short, args, vs, env, c):
        v = self.solidall(env, vs[0]) if vs else None
        if short.endswith("TcpListener::bind"):
            return sym("binding", v)
        if name == "local_addr":
            return agg("Ok", sym("local address"))
        if name in ("to_socket_addrs", "lookup_host"):
            return agg("Ok", ("it", (sym("address", v),)))
        if name in ("exists", "try_exists", "is_file") and v is not None:
            b = boolean(self.exists) if mentions(v, sym("path")) else TOP
            return agg("Ok", b) if name == "try_exists" else b
        if short == "Path::new" or name in ("as_os_str", "as_path", "to_path_buf", "into_path", "to_os_string", "into_os_string"):
            return args[0] if args[0][0] != "ref" else v
        if short.startswith("Builder::") and "tokio" in path:
            return agg("Ok", sym("runtime")) if name == "build" else sym("runtime builder")
        if short == "Runtime::new":
            return agg("Ok", sym("runtime"))
        return super().special(path, name, short, args, vs, env, c)

    def ready(self, v, env):
        if v[0] == "sym" and v[1] == "binding":
            return [(agg("Ok", sym("listener", v[2][0])), env), (agg("Err", sym("cannot bind")), self.log(env, ("failed", "cannot bind")))]
        if v[0] == "sym" and v[1] == "serving":
            return [(agg("Ok", UNIT), env), (agg("Err", sym("transport error")), self.log(env, ("failed", "transport error")))]
        return super().ready(v, env)


@prop("C30")
def starting(ctx, rep):
    """command line -> datastore -> server"""
    F = ctx.F
    fns = {f.label(): f for f in F.find(kind="fn") if f.crate.startswith("indradb_server")}
    f, g = fns.get("parse_cli_args"), fns.get("main")
    run = [x for x in F.find(kind="fn", crate="indradb_proto") if x.label() == "run"]
    for x, n in ((f, "parse_cli_args"), (g, "main"), (run[0] if run else None, "proto run")):
        if x is None:
            rep.missing(n)
            return
        rep.analysed(x)
    O = lambda x: agg("Some", sym("argument", x))
    first = True
    for sub in (None, "memory", "rocksdb"):
        for given in product((False, True), repeat=2):
            opt = {None: (), "memory": ("persist-path",), "rocksdb": ("repair",)}[sub]
            if not opt and given[1]:
                continue
            names = {n for n, b in zip(("plugins",) + opt, given) if b}
            A = Cli(F, (sub,) if sub else (), names)
            at = f"the command line {sub or 'without subcommand'}" + (" with " + ", ".join(sorted(names)) if names else "")
            want = {"addr": sym("argument", "address"), "plugin_path": O("plugins") if "plugins" in names else agg("None")}
            if sub == "rocksdb":
                want["datastore_args"] = agg("Rocksdb", path=sym("argument", "position 1"), max_open_files=sym("number", sym("argument", "max-open-files")), repair=boolean("repair" in names))
            else:
                want["datastore_args"] = agg("Memory", path=O("persist-path") if "persist-path" in names else agg("None"))
            for v, env in root(A, f, [], {}, rep):
                if v == PANIC:
                    rep.check(sub == "rocksdb", f"exits: {sub} {sorted(names)}", f"{at} ends the program; {f.file}:{f.line}", f"{at}: a bad number exits")
                    continue
                got = {k: A.solidall(env, x) for k, x in v[2]} if v[0] == "agg" else {}
                for k, w in want.items():
                    x = got.get(k, TOP)
                    if x[0] == "agg" and w[0] == "agg":
                        x, w = (x[1], frozenset(x[2])), (w[1], frozenset(w[2]))
                    rep.check(x == w, f"{k}: {sub} {sorted(names)}", f"{at} gives {k} = {pv(got.get(k, TOP))}, expected {pv(want[k])}; {f.file}:{f.line}", f"{at}: {k} = {pv(want[k])}")
            if first and A.app is not None:
                first = False
                dec = declared(A.app)
                for k, props in ARGS.items():
                    ok = k in dec and (props is None or frozenset(props.items()) <= dec[k])
                    if props is not None and "takes_value" not in props and k in dec and "required" not in props:
                        ok = ok and ("takes_value", "1") not in dec[k]
                    rep.check(ok, f"declared {' '.join(k)}", f"the command line declares {' '.join(k)} as {sorted(dec[k]) if k in dec and dec[k] else 'nothing' if k not in dec else 'a subcommand'}, expected {props}; {f.file}:{f.line}", f"declared: {' '.join(k)} {props or ''}")
                for k, props in dec.items():
                    rep.check(k in ARGS or not props or ("required", "1") not in props, f"new required {' '.join(k)}", f"the command line newly requires {' '.join(k)}; {f.file}:{f.line}", f"declared: nothing else required")
    # the start
    path, addr, plug = sym("path"), sym("addr"), sym("plugin path")
    cases = []
    for p in (agg("None"), agg("Some", plug)):
        for ex in (False, True):
            cases.append(("memory, no path", agg("Memory", path=agg("None")), p, ex, sym("new_db")))
            cases.append((f"memory, {'existing' if ex else 'new'} path", agg("Memory", path=agg("Some", path)), p, ex, sym("read_msgpack_db" if ex else "create_msgpack_db", path)))
            opts = sym("options", agg("Some", sym("max_open_files")))
            cases.append(("rocksdb", agg("Rocksdb", path=path, max_open_files=sym("max_open_files"), repair=FALSE), p, ex, sym("new_db_with_options", path, opts)))
            cases.append(("rocksdb repair", agg("Rocksdb", path=path, max_open_files=sym("max_open_files"), repair=TRUE), p, ex, sym("repair", path, opts)))
    for what, store, p, ex, want in cases:
        A = Start(F, agg("CliArgs", addr=addr, datastore_args=store, plugin_path=p), ex)
        what += ", plugins" if p[1] == "Some" else ""
        at = "a start with " + what
        answers = set()
        for v, env in root(A, g, [], {}, rep):
            v = A.solidall(env, v)
            log = env.get(("log",), ())
            opened = [x[1] for x in log if x[0] == "open"]
            served = [x[1:] for x in log if x[0] == "serve"]
            fails = {x[1] for x in log if x[0] == "failed"}
            failed = v == PANIC or v[0] == "agg" and v[1] == "Err"
            rep.check(all(x == want for x in opened) and len(opened) <= 1, f"opens: {what}: {[pv(x) for x in opened]}"[:200], f"{at} opens {', '.join(pv(x) for x in opened)}, expected {pv(want)}; {g.file}:{g.line}", f"{at}: opens {pv(want)}")
            rep.check(failed or not fails, f"goes on: {what}: {sorted(fails)}", f"{at} ends well although: {', '.join(sorted(fails))}; {g.file}:{g.line}", f"{at}: failures end it")
            if not failed:
                rep.check(opened == [want], f"opens nothing: {what}", f"{at} succeeds without {pv(want)}; {g.file}:{g.line}", f"{at}: opens {pv(want)}")
            if want[1] == "repair":
                rep.check(not served, f"serves: {what}", f"{at} serves although only a repair was asked for; {g.file}:{g.line}", f"{at}: does not serve")
                answers.add("failed" if failed else "done")
                continue
            if not served:
                rep.check(failed, f"not served: {what}", f"{at} ends without serving and without an error; {g.file}:{g.line}", f"{at}: an error when it cannot serve")
                rep.check(bool(fails), f"gives up: {what}: {pv(v)}"[:200], f"{at} gives up with {pv(v)[:120]} although it could listen and open its datastore; {g.file}:{g.line}", f"{at}: gives up only when it must")
                answers.add("failed")
                continue
            answers.add("served")
            rep.check(len(served) == 1, f"serves twice: {what}", f"{at} serves {len(served)} times; {g.file}:{g.line}", f"{at}: serves once")
            fn, *a = served[0]
            rep.check(fn == ("run" if p[1] == "None" else "run_with_plugins"), f"serves with {fn}: {what}", f"{at} is served by {fn}; {g.file}:{g.line}", f"{at}: served by {fn}")
            rep.check(bool(a) and a[0] == want, f"serves {pv(a[0]) if a else 'nothing'}: {what}"[:200], f"{at} serves {pv(a[0]) if a else 'nothing'}, expected {pv(want)}; {g.file}:{g.line}", f"{at}: serves {pv(want)}")
            rep.check(len(a) > 1 and mentions(a[1], "listener") and mentions(a[1], addr), f"listens on {pv(a[1]) if len(a) > 1 else 'nothing'}: {what}"[:200], f"{at} listens on {pv(a[1]) if len(a) > 1 else 'nothing'}, expected the address given; {g.file}:{g.line}", f"{at}: listens on the address given")
            if p[1] == "Some":
                rep.check(len(a) > 2 and a[2] == plug, f"plugins of {pv(a[2]) if len(a) > 2 else 'nothing'}: {what}"[:200], f"{at} loads plugins of {pv(a[2]) if len(a) > 2 else 'nothing'}; {g.file}:{g.line}", f"{at}: plugins of the path given")
            rep.check(failed == bool(fails), f"answers {pv(v)}: {what}"[:200], f"{at} answers {pv(v)[:120]}; {g.file}:{g.line}", f"{at}: ends as serving did")
        rep.check(len(answers) == 2, f"outcomes {sorted(answers)}: {what}", f"{at} can only end {sorted(answers)}; {g.file}:{g.line}", f"{at}: {', '.join(sorted(answers))}")
    # proto run
    f = run[0]
    A = Serve(F)
    for v, env in root(A, f, [("ref", ("heap", "db"), ()), sym("listener")], {("heap", "db"): sym("database")}, rep):
        log = env.get(("log",), ())
        check_served(rep, "run", f, A.solidall(env, v), [x[1:] for x in log if x[0] == "serve"], sym("database"), log)
