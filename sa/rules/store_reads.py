"""What the queries of both datastores return."""
from core import *
from spec import *

V_, E_ = "id {0}.0; t {0}.val", "{0}.0, {0}.1, {0}.2"
EK = "each(edges).outbound_id, each(edges).t, each(edges).inbound_id"
OFF = "offset.outbound_id, offset.t, offset.inbound_id"
EE = "edge.outbound_id, edge.t, edge.inbound_id"
EEC = EE.replace(", ", ",")
VI1, VI2 = "VI[name,_,_]", "VI[name,value,_]"
EI1, EI2 = "EI[name,_,_,_,_]", "EI[name,value,_,_,_]"
IXE = "{0}.2, {0}.3, {0}.4"

# op -> (kind of result, expected row, literals required, literals allowed)
READ = {
    "all_vertices": ("V", V_.format("V[_]"), [], []),
    "range_vertices": ("V", V_.format("V[_] from (offset)"), [], []),
    "specific_vertices": ("V", "id each(ids); t V(each(ids))", [], ["has V(each(ids))", "each ids"]),
    "all_edges": ("E", E_.format("E[_,_,_]"), [], []),
    "range_edges": ("E", E_.format(f"E[_,_,_] from ({OFF})"), [], []),
    "range_reversed_edges": ("E", "{0}.2, {0}.1, {0}.0".format("E[_,_,_] from~ (offset.inbound_id, offset.t, offset.outbound_id)"), [], []),
    "specific_edges": ("E", EK, [f"has E({EK})"], ["each edges"]),
    "vertex_ids_with_property": ("U", f"{VI1}.2", [], [f"has V({VI1}.2)", "indexed name"]),
    "vertex_ids_with_property_value": ("U", f"{VI2}.2", [], [f"has V({VI2}.2)", "indexed name", "hasval(name, value)"]),
    "edges_with_property": ("E", IXE.format(EI1), [], [f"has E({IXE.format(EI1)})", "indexed name"]),
    "edges_with_property_value": ("E", IXE.format(EI2), [], [f"has E({IXE.format(EI2)})", "indexed name", "hasval(name, value)"]),
    "all_vertex_properties_for_vertex": ("P", "VP[vertex.id,_].1 = VP[vertex.id,_].val", [], []),
    "all_edge_properties_for_edge": ("P", f"EP[{EEC},_].3 = EP[{EEC},_].val", [], []),
    "vertex_property": ("O", "VP(vertex.id, name)", [], ["has VP(vertex.id, name)"]),
    "edge_property": ("O", f"EP({EE}, name)", [], [f"has EP({EE}, name)"]),
    "vertex_count": ("C", "count(V[_])", [], []),
    "edge_count": ("C", "count(E[_,_,_])", [], []),
}


def present(kind, x):
    """canonical text of one result row"""
    if kind == "V":
        n = "indradb::models::vertices::Vertex"
        return f"id {sshow(field(x, 'id', n))}; t {sshow(field(x, 't', n))}"
    if kind == "E":
        return ", ".join(sshow(p) for p in edge_parts(x))
    if kind == "P":
        a, b = field(x, "0", "tuple"), field(x, "1", "tuple")
        if x.op == "agg" and adt_last(x.a[0]) == "NamedProperty":
            a, b = field(x, "name", x.a[0]), field(x, "value", x.a[0])
        return f"{sshow(a)} = {sshow(b)}"
    return sshow(x)


def counted(o, r):
    """a counter that is only ever incremented once per row of an iteration -> the count of that iteration"""
    ms = members(clean(r))
    c = [m for m in ms if m.op == "ctr"]
    if len(c) != 1 or any(m is not c[0] and not (m.op == "c" and m.a[0] == "0") for m in ms):
        return r
    d = o.X.dnf(o.C.at(int(c[0].a[0]), int(c[0].a[1])))
    lits = [x for x in next(iter(d))] if len(d) == 1 else []
    if len(lits) == 1 and lits[0][0].op == "iter" and lits[0][1] == "Y":
        return mk("call", "count", (mk("scanned", lits[0][0].a[0]),))
    return r


def result_rows(o, kind):
    """[(text, clause)] of the successful result rows"""
    r = o.ret
    t = elem(r) if kind in "VEUP" else counted(o, r) if kind == "C" else r
    out = []
    for vals, cl in o.X.alternatives([t], TOP):
        n = normalise(vals, cl)
        if n is None:
            continue
        v, cl = n[0][0], n[1]
        if v.op in ("err", "bot") or any(a.op == "error" for a, _ in cl):
            continue
        if v.op == "none" and kind == "O":
            continue
        out.append((v, present(kind, v), cstr(denoise(cl, "read", "", v)), cl))
    return out


ORDER = {"rev", "skip", "skipwhile", "take", "chain", "zip", "sorted"}


def odd_adaptors(t):
    """iterator adaptors in a result that reorder or cut it"""
    bad = set()
    for x in subterms(t):
        if x.op in ORDER:
            bad.add(x.op)
        if x.op == "pushed" and isinstance(x.a[1], tuple) and x.a[1] and x.a[1][0] in ("take", "skip", "skipwhile"):
            bad.add(x.a[1][0])
        if x.op == "call" and x.a[0].split("::")[-1] in ("step_by", "skip", "take", "rev", "chunks", "truncate", "nth", "dedup", "sort", "sort_by"):
            bad.add(x.a[0].split("::")[-1])
    return bad


@prop("C24")
def reads(ctx, rep):
    """each query of a datastore returns exactly the rows of the logical tables it names, in table order"""
    for s in STORES:
        for n, (kind, want, must, may) in READ.items():
            o = ctx.op(s, n, rep)
            if not o:
                continue
            rows = result_rows(o, kind)
            rep.check(bool(rows), f"{s} {n}: no result", f"{s} {n} ({o.fn.file}) returns no rows")
            exact = 0
            must_c = parse(" & ".join(must))
            ok_l = {next(iter(parse(m))) for m in may} | must_c
            for v, txt, c, cl in rows:
                if not rep.check(txt == want, f"{s} {n}: returns `{txt[:160]}`", f"{s} {n} returns `{txt}` when {show_clause(c)}; it must return `{want}`; {o.fn.file} in {o.fn.label()}", f"{s} {n}: {txt} | {show_clause(c)}"):
                    continue
                rep.check(must_c <= c, f"{s} {n}: returns rows without `{' & '.join(must)}`", f"{s} {n} returns `{txt}` when {show_clause(c)}; required: {' & '.join(must)}; {o.fn.file}")
                extra = {x for x in c if x not in ok_l and not x[0].startswith(("each ", "some("))}
                if not rep.check(not extra, f"{s} {n}: drops rows unless `{show_clause(extra)[:200]}`", f"{s} {n} returns `{txt}` only when {show_clause(extra)}, so it drops rows; {o.fn.file} in {o.fn.label()}"):
                    continue
            bad = odd_adaptors(o.ret)
            rep.check(not bad, f"{s} {n}: {sorted(bad)} on the result", f"{s} {n} ({o.fn.file}) applies {sorted(bad)} to its rows, so some are missing or out of order", f"{s} {n}: no cutting or reordering adaptor")
            shuffled = sorted({f"{f.file}:{line}" for f, line, v in o.A.hashed if line})
            rep.check(kind not in "VEP" or "with_property" in n or not shuffled, f"{s} {n}: rows in the order of a hash set", f"{s} {n} passes its rows through a hash set or map ({', '.join(shuffled)}), so they come without duplicates and in no order", f"{s} {n}: not through a hash set")
            if kind == "O":
                readcond(rep, s, n, o, want)
            sane(rep, s, n, o)
            for e in o.eff:
                rep.check(False, f"{s} {n}: changes {e.T}", f"{s} {n} is a query but performs {e}; at {where(e.ev)}")


def readcond(rep, s, n, o, want):
    """a property lookup returns None only when there is no such property"""
    top = next(f for f in o.A.frames.values() if f.parent is None)
    no = {cstr(c) for c in o.X.dnf(o.C.returns_some(top.id, "O", False))}
    rep.check(all(("has " + want, "N") in c for c in no), f"{s} {n}: None although the property exists",
              f"{s} {n} ({o.fn.file}) returns None when {' or '.join(map(show_clause, no))}", f"{s} {n}: None only without {want}")


INDEXED = ["vertex_ids_with_property", "vertex_ids_with_property_value", "edges_with_property", "edges_with_property_value"]


@prop("C10")
def not_indexed(ctx, rep):
    """an index query answers None exactly when the property name is not indexed"""
    for s in STORES:
        for n in INDEXED:
            o = ctx.op(s, n, rep)
            if not o:
                continue
            top = next(f for f in o.A.frames.values() if f.parent is None)
            for pos in (True, False):
                d = {cstr(denoise(c, "cond", "", NOKEY)) for c in o.X.dnf(o.C.returns_some(top.id, "O", pos))}
                lit = ("indexed name", "Y" if pos else "N")
                opp = ("indexed name", "N" if pos else "Y")
                what = "Some" if pos else "None"
                rep.check(bool(d) and all(lit in c for c in d), f"{s} {n}: {what} although the name is {'not ' if pos else ''}indexed",
                          f"{s} {n} ({o.fn.file} in {o.fn.label()}) returns {what} when {' or '.join(map(show_clause, d)) or 'never'}; it must do so exactly when the name is {'' if pos else 'not '}indexed",
                          f"{s} {n}: {what} => {'' if pos else 'not '}indexed")
                rep.check(any(c <= {lit} for c in {frozenset(x for x in c if x[0].startswith('indexed') or x[1] == 'N') for c in d}), f"{s} {n}: {what} only in some of the cases where the name is {'' if pos else 'not '}indexed",
                          f"{s} {n} ({o.fn.file} in {o.fn.label()}) returns {what} when {' or '.join(map(show_clause, d)) or 'never'}")
