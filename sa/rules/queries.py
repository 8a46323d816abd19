"""The query evaluator and the operations of `Database`."""
from core import *
from spec import *
from rules.store_reads import present

QA = "indradb::models::queries::Query"
QO = "indradb::models::queries::QueryOutputValue"
KINDS = ["Vertices", "Edges", "VertexProperties", "EdgeProperties", "Count"]
SELF = {"name": None}


# ------------------------------------------------------------------ the evaluator
def evaluator(F):
    """the function that evaluates a Query into a list of values"""
    c = []
    for f in F.find(kind="fn", crate="indradb"):
        if f.nargs < 3 or not f.blocks:
            continue
        tys = [f.locals[i][0] for i in range(1, f.nargs + 1)]
        if any(t.endswith("queries::Query") and t.startswith("&") for t in tys) and any("Vec<" in t and "QueryOutputValue" in t and t.startswith("&mut") for t in tys):
            c.append(f)
    ids = {f.id for f in c}

    def calls(f):
        return {t[1][1]["fn"].get("id") or t[1][1]["fn"].get("path") for b in f.blocks for t in [b["t"]] if t[0] == "call" and t[1][0] == "const" and "fn" in t[1][1]}
    # the recursive one: reached from the public entry point
    for f in c:
        if f.name == "query":
            return f
    return c[0] if len(c) == 1 else next((f for f in c if f.id in reach(F, f, calls)), None)


def reach(F, f, calls):
    seen, st = set(), list(calls(f))
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        g = F.fns.get(x)
        if g is not None and g.blocks:
            st.extend(calls(g))
    return seen


def roles(f):
    """parameter terms by type"""
    r = {}
    for i in range(1, f.nargs + 1):
        t = f.locals[i][0]
        if t.startswith("&mut") and "QueryOutputValue" in t:
            r[i] = mk("param", "output")
        elif t.startswith("&") and t.endswith("queries::Query"):
            r[i] = mk("param", "q")
        else:
            r[i] = mk("param", "txn")
    return r


def is_pop(m):
    return m.op == "call" and m.a[0].split("::")[-1] == "pop" and len(m.a[1]) == 1 and strip(m.a[1][0]) is mk("param", "output")


def qlast(adt):
    return "indradb::models::queries::" + adt


class QClauses(Clauses):
    """keeps what ends an iteration early as literals of its own"""

    def lit(self, atom, lab):
        if atom.op in ("tw", "cut"):
            return one(atom, lab)
        if atom.op in ("take", "skip"):
            return one(mk(atom.op, self.L(atom.a[0]), *atom.a[1:]), lab)
        return super().lit(atom, lab)

    def stops(self, atom):
        """the conditions under which an iteration goes on, per place where it may stop"""
        if atom.op == "tw":
            d = self.dnf(self.C.keeps(atom))
            if len(atom.a) > 1:
                d = {frozenset((a, l) for a, l in c if not (a.op == "some" and l == "Y" and strip(a.a[0]).op == "elem")) for c in d}
            return [d]
        return [self.dnf(x) for x in self.C.stays(atom)]


def text(t):
    if isinstance(t, T) and t.op == "eq":
        return " == ".join(sorted((text(t.a[0]), text(t.a[1]))))
    s = (sshow(t) if isinstance(t, T) else t).replace("Transaction::", "").replace("(txn, ", "(").replace("(txn)", "()").replace("q.0.", "q.").replace("Vec::pop(output).0", "piped").replace("Vec::pop(output)", "piped")
    return s.replace("edges::Edge", "Edge").replace("Uuid>::nil()", "default(Uuid)").replace("Uuid::nil()", "default(Uuid)")


def is_recursion(e, f):
    return e.name == f.name and e.rid == f.id or e.path.endswith("::" + f.path.split("::", 1)[-1])


class Slice:
    """the evaluator under assumptions on the query, its options and the piped value"""

    def __init__(self, ctx, f, variant, opts=(), popped=None, inner=None, lookup=None, inner_adt=None):
        self.f, self.variant = f, variant
        q = mk("param", "q")
        q0 = field(q, "0", QA, variant)
        adt = variant + "Query"
        asm = [(q, frozenset({variant}))]
        for name, val in opts:
            t = field(q0, name, qlast(adt))
            if isinstance(val, bool):
                asm.append((t, "Y" if val else "N"))
            elif val in ("Some", "None"):
                asm.append((t, frozenset({val})))
            else:
                asm.append((t, frozenset({val})))
                for d in ("Outbound", "Inbound"):
                    k = mk("agg", "indradb::models::queries::EdgeDirection", d, ())
                    asm.append((mk("eq", *sorted((t, k), key=lambda z: z.h)), "Y" if d == val else "N"))
        if popped:
            asm.append((is_pop, frozenset({popped})))
        if inner:
            asm.append((field(q0, "inner", qlast(adt)), frozenset(inner)))
        if lookup:
            asm.append(((lambda m: m.op == "call" and m.a[0].split("::")[-1] in LOOKUPS), frozenset({lookup})))
        self.A = Analysis(ctx.F, opaque={f.path.split("::", 1)[-1]}, assume=asm)
        self.A.sets = True
        self.ret = self.A.run(f, roles(f))
        self.C = Cond(self.A)
        self.X = QClauses(self.A, self.C)
        self.events = sorted(self.A.events.values(), key=lambda e: e.order)
        self.rec, self.push, self.pop, self.other = [], [], [], []
        out = mk("param", "output")
        for e in self.events:
            if is_recursion(e, f):
                self.rec.append(e)
            elif e.args and strip(e.args[0]) is out:
                if e.name == "push":
                    self.push.append(e)
                elif e.name == "pop":
                    self.pop.append(e)
                elif e.name not in ("len", "is_empty", "last", "reserve", "capacity", "deref", "as_slice", "iter", "first", "as_mut", "as_ref", "borrow_mut"):
                    self.other.append(e)

    def cond(self, e):
        return self.X.dnf(self.C.event(e))

    def errors(self):
        """names of the errors that the evaluator itself returns"""
        r = set()
        for m in members(self.ret):
            if m.op == "err":
                for x in members(m.a[0]):
                    if x.op == "agg" and adt_last(x.a[0]) == "Error":
                        r.add(x.a[1])
        return r

    def succeeds(self):
        return any(m.op != "err" for m in members(self.ret))


LOOKUPS = {"vertex_ids_with_property", "vertex_ids_with_property_value", "edges_with_property", "edges_with_property_value"}


def simple(cl):
    """a clause without what an iteration implies anyway"""
    return frozenset((a, l) for a, l in cl if not (a.op == "iter" and l == "Y"))


def origins(t):
    return {x.a[0] for x in subterms(t) if x.op == "coll"}


def remaining(n, lim, org):
    """n is the limit, or the limit minus what the result already holds: "all" / "rest" / None"""
    n = strip(n)
    if n is lim:
        return "all"
    ms = members(n)
    if len(ms) == 1:
        x = ms[0]
        a = None
        if x.op == "bin" and x.a[0].startswith("Sub"):
            a = x.a[1], x.a[2]
        if x.op == "field" and x.a[0].op == "bin" and x.a[0].a[0].startswith("Sub"):
            a = x.a[0].a[1], x.a[0].a[2]
        if x.op == "call" and x.a[0].split("::")[-1] in ("saturating_sub", "wrapping_sub") and len(x.a[1]) == 2:
            a = x.a[1]
        if a and strip(a[0]) is lim and is_len(a[1], org):
            return "rest"
    return None


def is_len(t, org):
    t = strip(t)
    return t.op == "call" and t.a[0].split("::")[-1] == "len" and len(t.a[1]) == 1 and bool(origins(t.a[1][0]) & org)


def below_limit(lits_, lim, org):
    """the literals say that the result holds fewer items than the limit (or at most as many)"""
    if len(lits_) != 1:
        return False
    a, l = next(iter(lits_))
    if a.op == "bin" and a.a[0] in ("Lt", "Le", "Gt", "Ge") and l in ("Y", "N"):
        o, x, y = a.a[0], strip(a.a[1]), strip(a.a[2])
        if y is not lim and x is lim:
            o, x, y = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[o], y, x
        if y is not lim or not is_len(x, org):
            return False
        if l == "N":
            o = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[o]
        return {"Lt": "lt", "Le": "le"}.get(o, False)
    if a.op in ("eq",) and l == "N":
        x, y = strip(a.a[0]), strip(a.a[1])
        return "lt" if (x is lim and is_len(y, org)) or (y is lim and is_len(x, org)) else False
    return False


class Rows:
    """rows of one value of a slice, checked against what is expected"""

    def __init__(self, s, rep, key):
        self.s, self.rep, self.key = s, rep, key

    def check(self, payload, cond, kind, want, must=(), may=(), limit=None, until=()):
        """want: accepted row texts; must/may: literals; limit: term of the limit; until: conditions that may end an iteration"""
        s, rep, key = self.s, self.rep, self.key
        X = s.X
        n = 0
        payload_org = origins(payload) if payload.op in ("coll", "phi", "pushed") else set()
        for vals, cl in X.alternatives([elem(payload)], cond):
            r = normalise(vals, cl)
            if r is None:
                continue
            v, cl = r[0][0], r[1]
            if v.op in ("err", "bot") or any(a.op == "error" for a, _ in cl):
                continue
            n += 1
            txt = text(present(kind, v)) if kind else text(v)
            rep.check(txt in want, f"{key}: yields `{txt[:160]}`", f"{key} yields `{txt}`; it must yield `{want[0]}`; {s.f.file} in {s.f.label()}", f"{key}: {txt}")
            if txt not in want:
                continue
            have, ends, takes, room = set(), [], [], False
            lim = limit
            for a, l in cl:
                if a.op in ("tw", "cut"):
                    ends += X.stops(a)
                elif a.op in ("take", "skip"):
                    takes.append(a)
                elif a.op == "iter" and l == "Y" or a.op == "some" and l == "Y" and strip(a.a[0]).op == "elem":
                    continue  # (an item that is not an error)
                elif lim is not None and below_limit({(a, l)}, lim, payload_org) == "lt":
                    room = True
                else:
                    have.add(lits1(a, l))
            missing = [m for m in must if not (set(m) & have if isinstance(m, tuple) else m in have)]
            rep.check(not missing, f"{key}: not restricted by `{missing}`", f"{key} yields items regardless of `{missing}`; {s.f.file} in {s.f.label()}", f"{key}: only if {list(must)}")
            flat = {x for m in must for x in (m if isinstance(m, tuple) else (m,))} | set(may)
            extra = have - flat
            rep.check(not extra, f"{key}: drops items unless `{sorted(extra)}`"[:300], f"{key} yields `{txt}` only when {sorted(extra)}; {s.f.file} in {s.f.label()}", f"{key}: no other condition")
            # where iterations may stop
            for d in ends:
                bad = None
                for c in d:
                    c = simple(c)
                    if lim is not None and below_limit(c, lim, payload_org):
                        continue
                    t = {lits1(a, l) for a, l in c}
                    if not t <= set(until):
                        bad = sorted(t)
                if not d:
                    bad = ["never"]
                rep.check(bad is None, f"{key}: stops unless `{bad}`"[:300], f"{key} stops looking at further items unless {bad}; {s.f.file} in {s.f.label()}", f"{key}: stops only where nothing can follow")
            # the limit
            if limit is None:
                rep.check(not takes, f"{key}: cut by take/skip", f"{key} takes only {[text(a.a[0]) for a in takes]} items; {s.f.file}", f"{key}: not cut")
                continue
            outer = {sshow(a) for a, l in cl if a.op == "iter" and l == "Y"}
            good = room
            for a in takes:
                if a.op == "skip":
                    rep.check(False, f"{key}: skips items", f"{key} skips {text(a.a[0])} items; {s.f.file}")
                    continue
                k = remaining(a.a[0], lim, payload_org)
                rep.check(k is not None, f"{key}: takes `{text(a.a[0])[:80]}`", f"{key} takes the first {text(a.a[0])} items, not the first `limit`; {s.f.file} in {s.f.label()}", f"{key}: takes {text(a.a[0])[:60]}")
                src = X.dnf(s.C.iterlit(a.a[1]))
                for c in src:
                    r2 = normalise([], c)
                    t = {lits1(b, l) for b, l in (r2[1] if r2 else c)}
                    its = {sshow(b) for b, l in (r2[1] if r2 else c) if b.op == "iter" and l == "Y"}
                    lack = [m for m in must if not (set(m) & t if isinstance(m, tuple) else m in t)]
                    rep.check(not lack, f"{key}: limit before `{lack}`"[:300], f"{key} applies the limit before it filters by {lack}, so matching items beyond the limit are lost; {s.f.file} in {s.f.label()}", f"{key}: limit after the filters")
                    if k == "rest" or (k == "all" and outer <= its):
                        good = True
            rep.check(good, f"{key}: more than `limit` items", f"{key} can yield more than `limit` items; {s.f.file} in {s.f.label()}", f"{key}: at most limit items")
        rep.check(n > 0, f"{key}: yields nothing", f"{key} yields nothing; {s.f.file} in {s.f.label()}")
        return n


def lits1(a, l):
    return ("" if l == "Y" else "not " if l == "N" else f"[{l if isinstance(l, str) else '/'.join(sorted(l))}] ") + text(a)


def always(d):
    """holds on every run that does not end in an error"""
    for c in d:
        if not {(a, l) for a, l in c if not (a.op == "some" and l == "Y")}:
            return True
    return False


def value(s, rep, key, kind, exported=None):
    """the one value a slice pushes, after the exported one if any: [(payload, condition)]"""
    rep.analysed(s.f, *[e.fn for e in s.events if e.fn.crate.startswith("indradb")])
    rep.sites += len(s.events)
    for e in s.other:
        rep.check(False, f"{key}: {e.name} on the output", f"{key} calls {e.name} on the output list; {where(e)}")
    vals, exp = [], []
    for e in s.push:
        d = s.cond(e)
        if not d:
            continue
        for m in members(clean_top(e.args[1])):
            if is_pop(strip(m)):
                exp.append((e, d))
            else:
                vals.append((e, d, strip(m)))
    if exported is not None:
        if exported:
            rep.check(len(exp) == 1 and always(exp[0][1]), f"{key}: included value not exported exactly once", f"{key} pushes the included value {len(exp)} times{', only when ' + showl(next(iter(exp[0][1]))) if exp and exp[0][1] and not always(exp[0][1]) else ''}; {s.f.file} in {s.f.label()}", f"{key}: exports the included value once")
        else:
            rep.check(not exp, f"{key}: value exported without include", f"{key} leaves its inner value in the output although it is not included; {s.f.file} in {s.f.label()}", f"{key}: inner value not exported")
    ok = rep.check(len(vals) == 1 and always(vals[0][1]), f"{key}: result not pushed exactly once", f"{key} pushes its result {len(vals)} times{', when ' + showl(next(iter(vals[0][1]))) if vals and vals[0][1] else ''}; {s.f.file} in {s.f.label()}", f"{key}: one result")
    if exported and exp and vals:
        rep.check(all(s.A.before(x[0], y[0]) for x in exp for y in vals), f"{key}: result before the included value", f"{key} pushes its result before the value it exports; {s.f.file}", f"{key}: exported value first")
    out = []
    for e, d, m in vals:
        if m.op == "agg" and adt_last(m.a[0]) == "QueryOutputValue":
            if rep.check(m.a[1] == kind, f"{key}: result is {m.a[1]}", f"{key} yields {m.a[1]}, expected {kind}; {where(e)}", f"{key}: {kind}"):
                out.append((m.a[2][0][1], d))
        else:
            rep.check(False, f"{key}: result is `{text(m)[:80]}`", f"{key} pushes `{text(m)}`; {where(e)}")
    return out


def clean_top(t):
    return t


def recursion(s, rep, key):
    """the inner query is evaluated once, unconditionally, and its value is popped once"""
    q0 = field(mk("param", "q"), "0", QA, s.variant)
    want = field(q0, "inner", qlast(s.variant + "Query"))
    ok = len(s.rec) == 1
    if ok:
        e = s.rec[0]
        args = {strip(a) for a in e.args}
        ok = {want, mk("param", "output"), mk("param", "txn")} <= args and always(s.cond(e))
    rep.check(ok, f"{key}: inner query not evaluated exactly once", f"{key} evaluates {[[text(a) for a in e.args] for e in s.rec]}; it must evaluate its inner query once; {s.f.file} in {s.f.label()}", f"{key}: inner query evaluated once")
    pops = [e for e in s.pop if s.cond(e)]
    rep.check(len(pops) == 1 and (not s.rec or s.A.before(s.rec[0], pops[0])), f"{key}: inner value not taken once", f"{key} pops {len(pops)} values; {s.f.file} in {s.f.label()}", f"{key}: one value popped")


def refused(ctx, rep, f, key, err, **kw):
    s = Slice(ctx, f, **kw)
    d = [e for e in s.push if s.cond(e)]
    top = next(fr for fr in s.A.frames.values() if fr.parent is None)
    rep.check(err in s.errors() and not s.succeeds(), f"{key}: not refused", f"{key} must fail with {err}, but returns {text(s.ret)[:300]}; {f.file} in {f.label()}", f"{key}: {err}")


EXPORT = [(["Include"], True), (None, False)]


def pipes(ctx, rep, f, variant, kinds, key, body, opts=()):
    """run a check on every kind of piped value, with and without an included inner query"""
    allv = [v[0] if isinstance(v, (list, tuple)) else v.get("name") for v in ctx.F.adts[QA]["variants"]]
    for k in kinds:
        for inc in (True, False):
            inner = ["Include"] if inc else [v for v in allv if v != "Include"]
            s = Slice(ctx, f, variant, opts, k, inner)
            kk = f"{key} of {k}{' of an include' if inc else ''}"
            recursion(s, rep, kk)
            body(s, kk, k, inc)
    for k in KINDS:
        if k not in kinds:
            refused(ctx, rep, f, f"{key} of {k}", "OperationOnQuery", variant=variant, opts=opts, popped=k)


def lim(variant):
    return field(field(mk("param", "q"), "0", QA, variant), "limit", qlast(variant + "Query"))


@prop("C12")
def traversal(ctx, rep):
    """range, specific and pipe queries: rows, filters, direction and limit of each case of the evaluator"""
    f = evaluator(ctx.F)
    if f is None:
        rep.missing("the query evaluator")
        return
    EDGE = "each(all_edges())"
    for v, kind, want in (("AllVertex", "Vertices", ["each(all_vertices())"]), ("AllEdge", "Edges", ["each(all_edges())"]),
                          ("SpecificVertex", "Vertices", ["each(specific_vertices(q.ids))"]), ("SpecificEdge", "Edges", ["each(specific_edges(q.edges))"])):
        s = Slice(ctx, f, v)
        rep.check(not s.rec, f"{v}: evaluates another query", f"{v} evaluates another query; {f.file}")
        for p, d in value(s, rep, v, kind, False):
            Rows(s, rep, v).check(p, d, None, want)
    for st in ("Some", "None"):
        for t in ("Some", "None"):
            key = f"RangeVertex{' from start_id' if st == 'Some' else ''}{' of type t' if t == 'Some' else ''}"
            s = Slice(ctx, f, "RangeVertex", [("start_id", st), ("t", t)])
            src = ["each(range_vertices(q.start_id))"] if st == "Some" else ["each(all_vertices())", "each(range_vertices(default(Uuid)))"]
            for p, d in value(s, rep, key, "Vertices", False):
                must = [tuple(eqt(x + ".t", "q.t") for x in src)] if t == "Some" else []
                Rows(s, rep, key).check(p, d, None, src, must, limit=lim("RangeVertex"))
    for dr in ("Outbound", "Inbound"):
        for t in ("Some", "None"):
            key = f"Pipe {dr.lower()}{' of type t' if t == 'Some' else ''}"

            def body(s, kk, k, inc):
                for p, d in value(s, rep, kk, "Vertices" if k == "Edges" else "Edges", inc):
                    if k == "Edges":
                        x = f"each(specific_vertices(map(piped, each(piped).{dr.lower()}_id)))"
                        Rows(s, rep, kk).check(p, d, None, [x], [eqt(x + ".t", "q.t")] if t == "Some" else [], limit=lim("Pipe"))
                        continue
                    srcs, want, must_o, must_t, until = [], [], [], [], []
                    for lt in (["q.t"] if t == "Some" else []) + ["default(Identifier)"]:
                        for li in ("default(Uuid)",):
                            low = "Edge{outbound_id: each(piped).id, t: " + lt + ", inbound_id: " + li + "}"
                            x = f"each({'range_edges' if dr == 'Outbound' else 'range_reversed_edges'}({low}))"
                            want.append(x if dr == "Outbound" else "Edge{outbound_id: " + x + ".inbound_id, t: " + x + ".t, inbound_id: " + x + ".outbound_id}")
                            must_o.append(eqt(x + ".outbound_id", "each(piped).id"))
                            must_t.append(eqt(x + ".t", "q.t"))
                            until.append(must_o[-1])
                            if lt == "q.t":
                                until.append(must_t[-1])
                    Rows(s, rep, kk).check(p, d, None, want, [tuple(must_o)] + ([tuple(must_t)] if t == "Some" else []), limit=lim("Pipe"), until=until)
            pipes(ctx, rep, f, "Pipe", ["Edges", "Vertices"], key, body, [("direction", dr), ("t", t)])


def eqt(a, b):
    return " == ".join(sorted((a, b)))


@prop("C31")
def properties(ctx, rep):
    """property queries: which properties of which items"""
    f = evaluator(ctx.F)
    if f is None:
        rep.missing("the query evaluator")
        return
    for nm in ("Some", "None"):
        def body(s, kk, k, inc):
            one_, all_, kind = ("edge_property", "all_edge_properties_for_edge", "EdgeProperties") if k == "Edges" else ("vertex_property", "all_vertex_properties_for_vertex", "VertexProperties")
            own = "edge" if k == "Edges" else "vertex"
            for p, d in value(s, rep, kk, kind, inc):
                if nm == "Some":
                    pw, need = f"q.name = {one_}(each(piped), q.name)", f"some({one_}(each(piped), q.name))"
                else:
                    pw, need = f"each({all_}(each(piped))).0 = each({all_}(each(piped))).1", None
                n = 0
                for vals, cl in s.X.alternatives([mk("agg", "pair", "", (("o", field(elem(p), own, "x::" + kind)), ("p", elem(field(elem(p), "props", "x::" + kind)))))], d):
                    r = normalise(vals, cl)
                    if r is None or any(a.op == "error" for a, _ in r[1]):
                        continue
                    v, cl = r[0][0], r[1]
                    if v.op != "agg" or any(x.op in ("err", "bot") for _, x in v.a[2]):
                        continue
                    n += 1
                    o, pr = text(v.a[2][0][1]), text(present("P", v.a[2][1][1]))
                    rep.check(o == "each(piped)", f"{kk}: owner is `{o[:100]}`", f"{kk} attributes the properties to `{o}`; {f.file}", f"{kk}: owner {o}")
                    rep.check(pr == pw, f"{kk}: property `{pr[:120]}`", f"{kk} yields the property `{pr}`, expected `{pw}`; {f.file}", f"{kk}: {pr}")
                    have = {lits1(a, l) for a, l in cl if not (a.op == "iter" and l == "Y")}
                    extra = {x for x in have if x != need and not x.startswith("not empty(") and not x.startswith("some(each(")}
                    rep.check(not extra, f"{kk}: drops properties unless `{sorted(extra)}`"[:300], f"{kk} yields a property only when {sorted(extra)}; {f.file}", f"{kk}: unconditional")
                rep.check(n > 0, f"{kk}: yields nothing", f"{kk} yields no property; {f.file}")
                # items without a property are left out
                for vals, cl in s.X.alternatives([elem(p)], d):
                    have = {lits1(a, l) for a, l in cl}
                    rep.check(any(x.startswith("not empty(") or x == need for x in have), f"{kk}: item without properties", f"{kk} yields an entry for an item that has no such property; {f.file}", f"{kk}: only items with properties")
        pipes(ctx, rep, f, "PipeProperty", ["Edges", "Vertices"], f"PipeProperty{' by name' if nm == 'Some' else ''}", body, [("name", nm)])


WITH = {
    "VertexWithPropertyPresence": ("Vertices", "specific_vertices", "vertex_ids_with_property(q.name)"),
    "VertexWithPropertyValue": ("Vertices", "specific_vertices", "vertex_ids_with_property_value(q.name, q.value)"),
    "EdgeWithPropertyPresence": ("Edges", "specific_edges", "edges_with_property(q.name)"),
    "EdgeWithPropertyValue": ("Edges", "specific_edges", "edges_with_property_value(q.name, q.value)"),
}


@prop("C28")
def by_property(ctx, rep):
    """queries by property: the index lookup each one uses, what it keeps of it, and its refusal when there is no index"""
    f = evaluator(ctx.F)
    if f is None:
        rep.missing("the query evaluator")
        return
    for v, (kind, specific, look) in WITH.items():
        s = Slice(ctx, f, v, lookup="Some")
        rep.check(not s.rec, f"{v}: evaluates another query", f"{v} evaluates another query; {f.file}")
        for p, d in value(s, rep, v, kind, False):
            Rows(s, rep, v).check(p, d, None, [f"each({specific}({look}))", f"each({specific}(map({look}, each({look}))))"], may=[f"some({look})"])
        refused(ctx, rep, f, f"{v} of an unindexed name", "NotIndexed", variant=v, lookup="None")
    for variant, flag, args, suffix in (("PipeWithPropertyPresence", "exists", "(q.name)", ""), ("PipeWithPropertyValue", "equal", "(q.name, q.value)", "_value")):
        for fl in (True, False):
            key = f"{variant} {flag}={str(fl).lower()}"

            def body(s, kk, k, inc):
                look, item = (f"edges_with_property{suffix}{args}", "each(piped)") if k == "Edges" else (f"vertex_ids_with_property{suffix}{args}", "each(piped).id")
                lit = f"has {look} {item}"
                for p, d in value(s, rep, kk, k, inc):
                    Rows(s, rep, kk).check(p, d, None, ["each(piped)"], [lit if fl else "not " + lit], [f"some({look})"])
            pipes(ctx, rep, f, variant, ["Edges", "Vertices"], key, body, [(flag, fl)])
        for k in ("Edges", "Vertices"):
            refused(ctx, rep, f, f"{variant} of {k} by an unindexed name", "NotIndexed", variant=variant, popped=k, lookup="None")


@prop("C32")
def include_count(ctx, rep):
    """include hands on its inner value, count counts it"""
    f = evaluator(ctx.F)
    if f is None:
        rep.missing("the query evaluator")
        return
    s = Slice(ctx, f, "Include")
    rep.analysed(f)
    recursion(s, rep, "Include")
    for e in s.other:
        rep.check(not s.cond(e), f"Include: {e.name} on the outputs", f"Include calls {e.name} on the outputs of the query; {f.file} in {f.label()}")
    pushes = [(e, s.cond(e)) for e in s.push if s.cond(e)]
    stay = not pushes and not [e for e in s.pop if s.cond(e)]
    rep.check(stay or len(pushes) == 1 and all(is_pop(strip(m)) for m in members(pushes[0][0].args[1])) and always(pushes[0][1]), "Include: result is not its inner value",
              f"Include pushes {[text(e.args[1])[:100] for e, _ in pushes]}; {f.file} in {f.label()}", "Include: pushes its inner value")
    allv = [v[0] for v in ctx.F.adts[QA]["variants"]]
    for inner, call in ((["AllVertex"], "vertex_count()"), (["AllEdge"], "edge_count()"), (["Include"], None), ([v for v in allv if v not in ("AllVertex", "AllEdge", "Include")], None)):
        for k in KINDS[:-1]:
            key = f"Count of {inner[0] if len(inner) == 1 else 'other'} ({k})"
            s = Slice(ctx, f, "Count", (), k, inner)
            rec = [e for e in s.rec if s.cond(e)]
            if rec or call is None:
                recursion(s, rep, key)
            for p, d in value(s, rep, key, "Count", inner == ["Include"]):
                for vals, cl in s.X.alternatives([p], d):
                    got = text(vals[0])
                    want = {"len(piped)", "count(piped)", "count(scanned(piped))"} if rec else {call}
                    rep.check(got in want, f"{key}: counts `{got[:100]}`", f"{key} yields `{got}`, expected {sorted(want)[0]}; {f.file} in {f.label()}", f"{key}: {got}")
                    extra = {lits1(a, l) for a, l in cl}
                    rep.check(not extra, f"{key}: only when {sorted(extra)}"[:200], f"{key} yields {got} only when {sorted(extra)}; {f.file}")
    refused(ctx, rep, f, "Count of a count", "OperationOnQuery", variant="Count", popped="Count", inner=["Count"])
