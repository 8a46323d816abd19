"""The operations of `Database`, and the functions that build queries."""
from core import *
from spec import *
from rules.queries import *
from rules.store_writes import in_order

OPS = ("create_vertex", "create_edge", "delete_vertices", "delete_edges", "delete_vertex_properties", "delete_edge_properties", "set_vertex_properties", "set_edge_properties",
       "bulk_insert", "index_property", "sync")
DEFAULTS = {"database::Transaction::sync", "database::Transaction::bulk_insert", "models::queries::Query::output_len"}


class Op:
    """one operation of Database, on an unknown datastore"""

    def __init__(self, ctx, name, assume=(), opaque=()):
        self.f = next((f for f in ctx.F.find(kind="fn", crate="indradb") if f.name == name and f.blocks and f.self_ty and adt_last(strip_g(f.self_ty)) == "Database" and not f.trait), None)
        if self.f is None:
            return
        ev = evaluator(ctx.F)
        self.ctx, self.name, self.ev = ctx, name, ev
        f = self.f
        names = {i: f.locals[i][1] or f"p{i}" for i in range(1, f.nargs + 1)}
        names[1] = "self"
        self.A = Analysis(ctx.F, opaque=DEFAULTS | set(opaque) | ({ev.path.split("::", 1)[-1]} if ev else set()), assume=list(assume))
        self.ret = self.A.run(f, {i: mk("param", n) for i, n in names.items()})
        self.C = Cond(self.A)
        self.X = QClauses(self.A, self.C)
        self.events = sorted(self.A.events.values(), key=lambda e: e.order)
        self.txns = [e for e in self.events if e.name == "transaction"]
        self.ops = [e for e in self.events if e.name in OPS and "database::Transaction::" in e.path and self.cond(e)]
        self.queries = [e for e in self.events if ev and is_recursion(e, ev)]

    def cond(self, e):
        return self.X.dnf(self.C.event(e))

    def is_output(self, m):
        """the list of values the evaluator filled"""
        m = strip(m)
        return m.op == "mut" and self.ev is not None and (m.a[0].endswith(self.ev.path.split("::", 1)[-1]))

    def is_result(self, m):
        m = strip(m)
        return m.op == "call" and m.a[0].split("::")[-1] == "pop" and len(m.a[1]) == 1 and all(self.is_output(x) for x in members(m.a[1][0]))

    def text(self, t):
        s = text(t)
        for m in subterms(t):
            if self.is_result(m):
                s = s.replace(text(m) + ".0", "result").replace(text(m), "result")
        return s


def strip_g(t):
    return t.split("<")[0]


def one_txn(o, rep, key):
    ok = len(o.txns) == 1 and strip(o.txns[0].args[0]) is field(mk("param", "self"), "datastore", "indradb::database::Database")
    rep.check(ok and always(o.cond(o.txns[0])), f"{key}: {len(o.txns)} transactions", f"{key} opens {len(o.txns)} transactions ({[text(e.args[0]) for e in o.txns]}); {o.f.file} in {o.f.label()}", f"{key}: one transaction")
    t = text(mk("call", "Datastore::transaction", (field(mk("param", "self"), "datastore", "indradb::database::Database"),)))
    for e in o.ops + o.queries:
        rep.check(text(e.args[0]) == t, f"{key}: {e.name} on `{text(e.args[0])[:100]}`", f"{key} calls {e.name} on {text(e.args[0])}, not on its transaction; {where(e)}", f"{key}: {e.name} on its transaction")


def evaluates(o, rep, key):
    ok = len(o.queries) == 1 and always(o.cond(o.queries[0])) and mk("param", "q") in [strip(a) for a in o.queries[0].args] and any(a.op == "coll" and not a.a[1] for a in map(strip, o.queries[0].args))
    rep.check(ok, f"{key}: query not evaluated exactly once", f"{key} evaluates {[[text(a)[:60] for a in e.args] for e in o.queries]}; it must evaluate the given query once into an empty list; {o.f.file} in {o.f.label()}", f"{key}: evaluates its query once")


@prop("C11")
def forwards(ctx, rep):
    """each operation of Database: one transaction, the operation once, its arguments and its outcome"""
    for name, args, trait in (("sync", (), "sync"), ("create_vertex", ("vertex",), "create_vertex"), ("create_edge", ("edge",), "create_edge"), ("bulk_insert", ("items",), "bulk_insert"), ("index_property", ("name",), "index_property")):
        o = Op(ctx, name)
        if o.f is None:
            rep.missing(f"Database::{name}")
            continue
        rep.analysed(o.f)
        rep.sites += len(o.events)
        one_txn(o, rep, name)
        ok = len(o.ops) == 1 and o.ops[0].name == trait and always(o.cond(o.ops[0]))
        if rep.check(ok, f"{name}: {trait} not called exactly once", f"{name} calls {[(e.name, showc(o.cond(e))) for e in o.ops]}; it must call {trait} exactly once; {o.f.file} in {o.f.label()}", f"{name}: {trait} once"):
            got = [text(a) for a in o.ops[0].args[1:]]
            want = [o.f.locals[i][1] for i in range(2, o.f.nargs + 1)]
            rep.check(got == want, f"{name}: {trait}({', '.join(got)[:100]})", f"{name} calls {trait} with {got}, expected {want}; {where(o.ops[0])}", f"{name}: {trait}({', '.join(got)})")
            outcome(o, rep, name, o.ops[0])
    o = Op(ctx, "get")
    if o.f is None:
        rep.missing("Database::get")
    else:
        rep.analysed(o.f)
        one_txn(o, rep, "get")
        evaluates(o, rep, "get")
        rep.check(not o.ops, "get: changes the datastore", f"get calls {[e.name for e in o.ops]}; {o.f.file}", "get: changes nothing")
        vals = [m for m in members(o.ret) if m.op != "err"]
        rep.check(len(vals) >= 1 and all(o.is_output(m) for m in vals), "get: does not return the output", f"get returns {[text(m)[:120] for m in vals]} instead of the list the query was evaluated into; {o.f.file} in {o.f.label()}", "get: returns the output")
    for made in ("Y", "N"):
        o = Op(ctx, "create_vertex_from_type", [(lambda m: "create_vertex" in show(m) and m.op != "is", made)])
        key = f"create_vertex_from_type ({'created' if made == 'Y' else 'not created'})"
        if o.f is None:
            rep.missing("Database::create_vertex_from_type")
            break
        rep.analysed(o.f)
        one_txn(o, rep, key)
        if not rep.check(len(o.ops) == 1 and o.ops[0].name == "create_vertex" and always(o.cond(o.ops[0])), f"{key}: create_vertex not called exactly once", f"{key} calls {[e.name for e in o.ops]}; {o.f.file}", f"{key}: create_vertex once"):
            continue
        v = strip(o.ops[0].args[1])
        t = mk("param", o.f.locals[2][1])
        idt = [m for m in members(v)]
        ok = len(idt) == 1 and idt[0].op == "agg" and dict(idt[0].a[2]).get("t") is t
        rep.check(ok, f"{key}: vertex `{text(v)[:100]}`", f"{key} creates {text(v)}, expected a vertex of the given type; {where(o.ops[0])}", f"{key}: vertex of type t")
        vals = [m for m in members(o.ret) if m.op != "err"]
        errs = [x.a[1] for m in members(o.ret) if m.op == "err" for x in members(m.a[0]) if x.op == "agg" and adt_last(x.a[0]) == "Error"]
        if made == "N":
            rep.check(not vals and "UuidTaken" in errs, f"{key}: no error", f"{key} returns {text(o.ret)[:200]}, expected UuidTaken; {o.f.file} in {o.f.label()}", f"{key}: UuidTaken")
        elif ok:
            rep.check(len(vals) == 1 and strip(vals[0]) is strip(dict(idt[0].a[2])["id"]) and not errs, f"{key}: returns `{[text(x)[:80] for x in vals]}`", f"{key} returns {text(o.ret)[:200]}, expected the id of the vertex it created; {o.f.file} in {o.f.label()}", f"{key}: id of the vertex")
            made_by = [x for x in o.events if x.path.endswith(tuple(y.a[0] for y in subterms(dict(idt[0].a[2])["id"]) if y.op == "call" and "Uuid" in y.a[0]) or ("?",))]
            rep.check(len(made_by) <= 1, f"{key}: {len(made_by)} identifiers generated", f"{key} generates {len(made_by)} identifiers, so the one it returns may not be the vertex's; {o.f.file} in {o.f.label()}", f"{key}: one identifier")
    default_bulk(ctx, rep)


def outcome(o, rep, key, e):
    """the result is that of the call"""
    vals = [m for m in members(o.ret)]
    call = strip(e.ret) if getattr(e, "ret", None) is not None else None
    bad = []
    for m in vals:
        x = strip(m.a[0] if m.op == "err" else m)
        if x.op == "unit":
            continue
        while x.op == "field":
            x = strip(x.a[0])
        if not (x.op == "call" and x.a[0].split("::")[-1] == e.name):
            bad.append(text(m))
    ty = o.f.locals[0][0]
    has = any(strip(m).op != "unit" and m.op != "err" for m in vals)
    if "bool" in ty and not has:
        bad.append("no value of " + e.name)
    rep.check(not bad, f"{key}: returns `{bad}`"[:160], f"{key} returns {bad} instead of the outcome of {e.name}; {o.f.file} in {o.f.label()}", f"{key}: outcome of {e.name}")
    # a failure of the call is a failure of the operation
    p = Op(o.ctx, o.name, [(lambda m: m.op == "call" and m.a[0].split("::")[-1] == e.name, "N")])
    good = [m for m in members(p.ret) if strip(m).op != "err" and not (strip(m).op == "call" and strip(m).a[0].split("::")[-1] == e.name)]
    rep.check(not good, f"{key}: failure of {e.name} ignored", f"{key} returns {[text(m)[:80] for m in good]} when {e.name} fails; {o.f.file} in {o.f.label()}", f"{key}: failure kept")


DEFAULT_BULK = {"Vertex": ("create_vertex", ["I.0"]), "Edge": ("create_edge", ["I.0"]), "VertexProperty": ("set_vertex_properties", ["[I.0]", "I.1", "I.2"]), "EdgeProperty": ("set_edge_properties", ["[I.0]", "I.1", "I.2"])}


def default_bulk(ctx, rep):
    """the default implementation of bulk insertion"""
    f = next((f for f in ctx.F.find(kind="fn", crate="indradb") if f.name == "bulk_insert" and f.blocks and f.path.endswith("database::Transaction::bulk_insert")), None)
    if f is None:
        return  # no default: every datastore has its own (C29)
    rep.analysed(f)
    in_order(ctx, rep, "default bulk insertion", f)
    for v, (name, want) in DEFAULT_BULK.items():
        it = elem(mk("param", "items"))
        A = Analysis(ctx.F, assume=[((lambda m: strip(m) is it), frozenset({v}))])
        A.run(f, {1: mk("param", "txn"), 2: mk("param", "items")})
        C = Cond(A)
        X = QClauses(A, C)
        ops = [(e, X.dnf(C.event(e))) for e in sorted(A.events.values(), key=lambda e: e.order) if e.name in OPS]
        ops = [(e, d) for e, d in ops if d]
        key = f"default bulk insertion of {v}"
        if not rep.check(len(ops) == 1 and ops[0][0].name == name, f"{key}: calls {[e.name for e, _ in ops]}", f"{key} calls {[e.name for e, _ in ops]}, expected {name}; {f.file}", f"{key}: {name}"):
            continue
        e, d = ops[0]
        extra = sorted({lits1(a, l) for c in d for a, l in c if not (a.op in ("iter", "variant") or a.op == "some")})
        rep.check(not extra, f"{key}: only when {extra}"[:200], f"{key} happens only when {extra}; {where(e)}", f"{key}: always")
        got = [text(a).replace("each(items)", "I").replace("array{0: I.0}", "[I.0]") for a in e.args[1:]]
        rep.check(got == want, f"{key}: {got}"[:200], f"{key} calls {name}({', '.join(got)}), expected ({', '.join(want)}); {where(e)}", f"{key}: {name}({', '.join(got)})")


def unless_empty(o, e):
    """the condition of an operation on a list, leaving out that the list is not empty (then there is nothing to do)"""
    own = {o.text(strip(e.args[1])), "result"} if len(e.args) > 1 else {"result"}
    return [frozenset((a, l) for a, l in c if not (a.op == "empty" and l == "N" and o.text(strip(a.a[0])) in own)) for c in o.cond(e)]


@prop("C13")
def on_query(ctx, rep):
    """Database::delete and set_properties: what they do for each kind of result"""
    DEL = {"Vertices": ("delete_vertices", ["each(result)"]), "Edges": ("delete_edges", ["each(result)"]),
           "VertexProperties": ("delete_vertex_properties", ["(each(result).vertex.id, each(each(result).props).name)"]),
           "EdgeProperties": ("delete_edge_properties", ["(each(result).edge, each(each(result).props).name)"]), "Count": None}
    SET = {"Vertices": ("set_vertex_properties", ["each(result).id"]), "Edges": ("set_edge_properties", ["each(result)"]), "VertexProperties": None, "EdgeProperties": None, "Count": None}
    for name, table in (("delete", DEL), ("set_properties", SET)):
        for kind, want in table.items():
            probe = Op(ctx, name)
            if probe.f is None:
                rep.missing(f"Database::{name}")
                break
            o = Op(ctx, name, [(probe.is_result, frozenset({kind}))])
            rep.analysed(o.f)
            rep.sites += len(o.events)
            key = f"{name} of {kind}"
            one_txn(o, rep, key)
            evaluates(o, rep, key)
            if want is None:
                errs = [x.a[1] for m in members(o.ret) if m.op == "err" for x in members(m.a[0]) if x.op == "agg" and adt_last(x.a[0]) == "Error"]
                vals = [m for m in members(o.ret) if m.op != "err"]
                rep.check(not o.ops and not vals and "OperationOnQuery" in errs, f"{key}: not refused", f"{key} calls {[e.name for e in o.ops]} and returns {text(o.ret)[:160]}; it must fail with OperationOnQuery and change nothing; {o.f.file} in {o.f.label()}", f"{key}: OperationOnQuery")
                continue
            op, rows = want
            if not rep.check(len(o.ops) == 1 and o.ops[0].name == op and always(unless_empty(o, o.ops[0])), f"{key}: {op} not called exactly once", f"{key} calls {[(e.name, showc(o.cond(e))[:100]) for e in o.ops]}; it must call {op} exactly once; {o.f.file} in {o.f.label()}", f"{key}: {op} once"):
                continue
            e = o.ops[0]
            rep.check(all(o.A.before(q, e) for q in o.queries), f"{key}: {op} before the query", f"{key} calls {op} before it evaluates the query; {where(e)}", f"{key}: after the query")
            n = 0
            for vals, cl in o.X.alternatives([elem(strip(e.args[1]))], TOP):
                r = normalise(vals, cl)
                if r is None:
                    continue
                v, cl = r[0][0], r[1]
                got = "(" + ", ".join(o.text(x) for _, x in v.a[2]) + ")" if v.op == "agg" and v.a[0] == "tuple" else o.text(v)
                n += 1
                rep.check(got in rows, f"{key}: on `{got[:120]}`", f"{key} calls {op} on `{got}`, expected `{rows[0]}`; {where(e)}", f"{key}: {got}")
                extra = sorted(o.text(a) for a, l in cl if not (a.op == "iter" and l == "Y"))
                rep.check(not extra, f"{key}: leaves out items unless {extra}"[:200], f"{key} leaves out items unless {extra}; {where(e)}", f"{key}: every item")
            rep.check(n > 0, f"{key}: on nothing", f"{key} calls {op} on nothing; {where(e)}")
            if name == "set_properties":
                got = [text(a) for a in e.args[2:]]
                rep.check(got == ["name", "value"], f"{key}: sets {got}", f"{key} sets {got}, expected the given name and value; {where(e)}", f"{key}: name and value")


# ------------------------------------------------------------------ builders
PQ = {"inner": "self"}
BUILDERS = [
    # function, arguments, built query
    ("QueryExt::outbound", "PipeQuery", {**PQ, "direction": "EdgeDirection::Outbound{}", "limit": "MAX", "t": "none()"}),
    ("QueryExt::inbound", "PipeQuery", {**PQ, "direction": "EdgeDirection::Inbound{}", "limit": "MAX", "t": "none()"}),
    ("QueryExt::with_property", "PipeWithPropertyPresenceQuery", {**PQ, "name": "@1", "exists": "true"}),
    ("QueryExt::without_property", "PipeWithPropertyPresenceQuery", {**PQ, "name": "@1", "exists": "false"}),
    ("QueryExt::with_property_equal_to", "PipeWithPropertyValueQuery", {**PQ, "name": "@1", "value": "@2", "equal": "true"}),
    ("QueryExt::with_property_not_equal_to", "PipeWithPropertyValueQuery", {**PQ, "name": "@1", "value": "@2", "equal": "false"}),
    ("QueryExt::properties", "PipePropertyQuery", {**PQ, "name": "none()"}),
    ("QueryExt::include", "IncludeQuery", PQ),
    ("CountQueryExt::count", "CountQuery", PQ),
    ("RangeVertexQuery::new", "RangeVertexQuery", {"limit": "MAX", "t": "none()", "start_id": "none()"}),
    ("RangeVertexQuery::limit", "RangeVertexQuery", {"limit": "@1", "t": "self.t", "start_id": "self.start_id"}),
    ("RangeVertexQuery::t", "RangeVertexQuery", {"limit": "self.limit", "t": "@1", "start_id": "self.start_id"}),
    ("RangeVertexQuery::start_id", "RangeVertexQuery", {"limit": "self.limit", "t": "self.t", "start_id": "@1"}),
    ("SpecificVertexQuery::new", "SpecificVertexQuery", {"ids": "@0"}),
    ("SpecificVertexQuery::single", "SpecificVertexQuery", {"ids": "[@0]"}),
    ("SpecificEdgeQuery::new", "SpecificEdgeQuery", {"edges": "@0"}),
    ("SpecificEdgeQuery::single", "SpecificEdgeQuery", {"edges": "[@0]"}),
    ("VertexWithPropertyPresenceQuery::new", "VertexWithPropertyPresenceQuery", {"name": "@0"}),
    ("VertexWithPropertyValueQuery::new", "VertexWithPropertyValueQuery", {"name": "@0", "value": "@1"}),
    ("EdgeWithPropertyPresenceQuery::new", "EdgeWithPropertyPresenceQuery", {"name": "@0"}),
    ("EdgeWithPropertyValueQuery::new", "EdgeWithPropertyValueQuery", {"name": "@0", "value": "@1"}),
    ("PipeQuery::new", "PipeQuery", {"inner": "@0", "direction": "@1", "limit": "MAX", "t": "none()"}),
    ("PipeQuery::limit", "PipeQuery", {"inner": "self.inner", "direction": "self.direction", "limit": "@1", "t": "self.t"}),
    ("PipeQuery::t", "PipeQuery", {"inner": "self.inner", "direction": "self.direction", "limit": "self.limit", "t": "@1"}),
    ("PipePropertyQuery::new", "PipePropertyQuery", {"inner": "@0", "name": "none()"}),
    ("PipePropertyQuery::name", "PipePropertyQuery", {"inner": "self.inner", "name": "@1"}),
    ("PipeWithPropertyPresenceQuery::new", "PipeWithPropertyPresenceQuery", {"inner": "@0", "name": "@1", "exists": "@2"}),
    ("PipeWithPropertyValueQuery::new", "PipeWithPropertyValueQuery", {"inner": "@0", "name": "@1", "value": "@2", "equal": "@3"}),
    ("IncludeQuery::new", "IncludeQuery", {"inner": "@0"}),
    ("CountQuery::new", "CountQuery", {"inner": "@0"}),
]
CHECKED = {"PipeQuery": {"Vertices", "Edges"}, "PipePropertyQuery": {"Vertices", "Edges"}, "PipeWithPropertyPresenceQuery": {"Vertices", "Edges"},
           "PipeWithPropertyValueQuery": {"Vertices", "Edges"}, "CountQuery": {"Vertices", "Edges", "VertexProperties", "EdgeProperties"}}
OT = "models::queries::Query::output_type"


def built(ctx, f, asm=()):
    A = Analysis(ctx.F, opaque={OT, "models::queries::Query::output_len"}, assume=list(asm))
    r = A.run(f, {i: mk("param", "self" if f.locals[i][1] == "self" else f"@{i - 1}") for i in range(1, f.nargs + 1)})
    return A, r


def whole(ctx, adt, m):
    """a struct that was changed in place, field by field"""
    m = strip(m)
    if m.op != "with":
        return m
    path = next((p for p in ctx.F.adts if adt_last(p) == adt and "queries" in p), adt)
    v = ctx.F.adts[path]["variants"][0]
    return mk("agg", path, adt, tuple((n, field(m, n, path)) for n, *_ in v[-1])) if len(v) > 1 else m


def btext(t):
    s = text(t).replace("queries::", "").replace("'4294967295'", "MAX").replace("'true'", "true").replace("'false'", "false")
    if t.op == "agg" and t.a[0] == "array" and len(t.a[2]) == 1:
        return "[" + btext(t.a[2][0][1]) + "]"
    if t.op == "coll" and len(t.a[1]) == 1:
        return "[" + btext(strip(next(iter(t.a[1])))) + "]"
    return s


@prop("C33")
def builders(ctx, rep):
    """what each query builder builds and refuses"""
    fns = {}
    for f in ctx.F.find(kind="fn", crate="indradb"):
        if f.file.endswith("models/queries.rs") and f.blocks:
            fns["::".join(f.path.split("::")[-2:]) if not f.trait or f.path.count("::") > 1 else f.name] = f
    for name, adt, want in BUILDERS:
        f = fns.get(name)
        if f is None:
            rep.missing(name)
            continue
        rep.analysed(f)
        A, r = built(ctx, f)
        rep.sites += len(A.events)
        vals = [whole(ctx, adt, m) for m in members(r) if strip(m).op != "err"]
        ok = len(vals) == 1 and strip(vals[0]).op == "agg" and adt_last(strip(vals[0]).a[0]) == adt
        if strip(vals[0]) is mk("param", "self") if vals else False:
            ok = False
        if rep.check(ok, f"{name}: builds `{[text(v)[:100] for v in vals]}`", f"{name} builds {[text(v)[:200] for v in vals]}, expected a {adt}; {f.file} in {f.label()}", f"{name}: {adt}"):
            got = {k: btext(v) for k, v in strip(vals[0]).a[2]}
            rep.check(got == want, f"{name}: {got}"[:300], f"{name} builds {adt} with {got}, expected {want}; {f.file}:{f.line}", f"{name}: {got}")
        errs = [m for m in members(r) if strip(m).op == "err"]
        if adt in CHECKED and ("new" in name or "Ext" in name):
            inner = mk("param", want["inner"])
            for k in KINDS:
                A, r = built(ctx, f, [((lambda m: m.op == "call" and m.a[0].endswith("output_type")), frozenset({k}))])
                calls = [e for e in A.events.values() if e.path.endswith(OT)]
                own = [x.a[1] for m in members(r) if m.op == "err" for x in members(m.a[0]) if x.op == "agg"]
                good = [m for m in members(r) if m.op != "err"]
                asked = [e for e in calls if strip(e.args[0]) is inner]
                if k in CHECKED[adt]:
                    rep.check(bool(good) and not own, f"{name} of {k}: refused", f"{name} refuses an inner query that yields {k}; {f.file}:{f.line}", f"{name} of {k}: accepted")
                else:
                    rep.check(not good and "InnerQuery" in own and bool(asked), f"{name} of {k}: accepted", f"{name} accepts an inner query that yields {k}; {f.file}:{f.line}", f"{name} of {k}: InnerQuery")
        else:
            rep.check(not errs, f"{name}: fails", f"{name} can fail with {[text(m) for m in errs]}; {f.file}:{f.line}", f"{name}: always succeeds")
    # the kind of result a query has, as far as validation depends on it
    f = next((f for k, f in fns.items() if f.path.endswith(OT)), None)
    if f is None:
        rep.missing("Query::output_type")
        return
    rep.analysed(f)
    q = mk("param", "self")
    VE = {"Vertices", "Edges"}
    for v in [x[0] for x in ctx.F.adts[QA]["variants"]]:
        for k in KINDS:
            A, r = built(ctx, f, [(q, frozenset({v})), ((lambda m: m.op == "call" and m.a[0].endswith("output_type")), frozenset({k}))])
            rec = field(field(q, "0", QA, v), "inner", qlast(v + "Query"))
            got, bad = set(), []
            for m in members(r):
                m = strip(m)
                if m.op == "err":
                    x = [y for y in members(m.a[0]) if y.op == "agg"]
                    got |= {"refused"} if x else set()
                elif m.op == "agg" and adt_last(m.a[0]) == "QueryOutputValue":
                    got.add(m.a[1])
                elif m.op == "call" and m.a[0].endswith("output_type") and strip(m.a[1][0]) is rec:
                    got.add(k)
                else:
                    bad.append(text(m))
            if v == "Count":
                want = [{"Count"}]
            elif v == "PipeProperty":
                want = [{"VertexProperties"}, {"EdgeProperties"}, {"VertexProperties", "EdgeProperties"}] if k in VE else [{"refused"}, {k}]
            elif v.startswith("Pipe"):
                want = [{"Vertices"}, {"Edges"}, VE] if k in VE else [{k}, {"refused"}]
            elif v == "Include":
                want = [{k}] if k not in VE else [{"Vertices"}, {"Edges"}, VE]
            else:
                want = [{"Vertices"}, {"Edges"}]
            rep.check(not bad and got in want, f"output type of {v} (inner {k}): {sorted(got)} {bad}"[:200], f"the result of {v}{f' over {k}' if 'Pipe' in v or v == 'Include' else ''} is taken to be {sorted(got)}{bad}; expected {sorted(want[0])}; {f.file} in {f.label()}", f"output type of {v}: {sorted(got)}")
    # conversion of each query into Query
    n = 0
    for f in ctx.F.find(kind="fn", crate="indradb"):
        src = f.self_ty if f.name == "into" and f.trait == "Into" else f.locals[1][0] if f.name == "from" and f.trait == "From" and f.self_ty and adt_last(f.self_ty) == "Query" else None
        if src and f.blocks and f.file.endswith("models/queries.rs"):
            v = adt_last(src)[:-len("Query")]
            A, r = built(ctx, f)
            rep.analysed(f)
            n += 1
            m = strip(r)
            ok = m.op == "agg" and m.a[1] == v and all(strip(x).op == "param" for _, x in m.a[2])
            rep.check(ok, f"{src} into Query: `{text(m)[:100]}`", f"{src} converts into {text(m)}, expected Query::{v}; {f.file}:{f.line}", f"{src}: Query::{v}")
    rep.check(n >= 15, "conversions into Query missing", f"only {n} of 15 conversions into Query found")
