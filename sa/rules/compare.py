"""C25: the models compare, sort and hash by what identifies them"""
from core import prop
from absint import Stuck, TOP, TRUE, FALSE, UNIT, agg, boolean
from rules.jsonval import JsonVal, REV, pj, ground
from values import sym

SA, SB, ST = (0, "a"), (0, "b"), (0, "state")
IDENTITY = {"Vertex": ("id",), "Edge": ("outbound_id", "t", "inbound_id")}  # (all other models: every part)
SAME = {"deref", "as_ref", "as_str", "borrow", "as_bytes", "clone", "as_u128", "as_slice", "as_deref", "to_owned", "deref_mut", "as_fields", "into_bytes", "get", "iter", "into_iter"}
ORD = ("Less", "Equal", "Greater")
VERDICT = {"eq": ("Equal",), "ne": ("Less", "Greater"), "lt": ("Less",), "le": ("Less", "Equal"), "gt": ("Greater",), "ge": ("Greater", "Equal")}
BIN = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}


def part(v):
    return v[0] == "sym" and v[1] == "part"


class Compare(JsonVal):
    def compare(self, a, b, env, partial=False):
        return super().compare(a, b, env, False)

    def answer(self, name, outs):
        if name == "cmp":
            return [(agg(o), e) for o, e in outs]
        if name == "partial_cmp":
            return [(agg("Some", agg(o)), e) for o, e in outs]
        return [(boolean(o in VERDICT[name]), e) for o, e in outs]

    def lex(self, pairs, env):
        outs = [("Equal", env)]
        for a, b in pairs:
            outs = [y for o, e in outs for y in ([(o, e)] if o != "Equal" else self.compare(a, b, e))]
        return outs

    def intercept(self, fn, args, vs, env):
        name = fn.name
        if len(vs) == 2 and part(vs[0]):
            if part(vs[1]) and (name in ("cmp", "partial_cmp") or name in VERDICT):
                return self.answer(name, self.compare(vs[0], vs[1], env))
            if vs[1][0] == "hasher" and name == "hash":
                return [(UNIT, self.upd(env, args[1], ("hasher", vs[1][1], vs[1][2] + (vs[0],))))]
        if len(vs) == 1 and part(vs[0]) and name in SAME:
            return [(vs[0], env)]
        return None

    def decide(self, v, env):
        if v[0] == "sym" and v[1] == "not":
            r = self.decide(v[2][0], env)
            return [(FALSE if x == TRUE else TRUE, e) for x, e in r] if r else None
        if v[0] == "sym" and v[1] in BIN and len(v[2]) == 2 and all(part(x) for x in v[2]):
            return self.answer(BIN[v[1]], self.compare(*v[2], env))
        return None

    def rvalue(self, fid, r, env):
        if r[0] == "un" and r[1] == "Not":
            v = self.val(env, self.operand(fid, r[2], env))
            if v[0] == "sym":
                return sym("not", v)
        if r[0] == "cast":
            v = self.val(env, self.operand(fid, r[2], env))
            if part(v) and "Int" in str(r[1]):
                return sym("as " + str(r[3]), v)
        return super().rvalue(fid, r, env)

    def special(self, path, name, short, args, vs, env, c):
        if vs and part(vs[0]) and len(vs) == 1 and name in SAME:
            return vs[0]
        if len(vs) == 2 and part(vs[0]) and vs[1][0] == "hasher" and (name == "hash" or name.startswith("write")):
            return [(UNIT, self.upd(env, args[1], ("hasher", vs[1][1], vs[1][2] + (vs[0],))))]
        if len(vs) == 2 and vs[0][0] == "hasher" and name.startswith("write"):
            return [(UNIT, self.upd(env, args[0], ("hasher", vs[0][1], vs[0][2] + (self.solidall(env, vs[1]),))))]
        if len(vs) == 2 and name == "hash" and vs[1][0] == "hasher":
            v = self.solidall(env, vs[0])
            xs = [x for _, x in v[2]] if v[0] == "agg" and v[1] == "" else [v]
            return [(UNIT, self.upd(env, args[1], ("hasher", vs[1][1], vs[1][2] + tuple(xs))))]
        if name == "discriminant" and vs and vs[0][0] == "agg":
            return agg("Discriminant", agg(vs[0][1]))
        if len(vs) == 2 and (name in VERDICT or name in ("cmp", "partial_cmp")):
            a, b = (self.solidall(env, x) for x in vs)
            if a[0] == b[0] == "agg" and a[1] == b[1] == "" and len(a[2]) == len(b[2]):
                return self.answer(name, self.lex([(x, y) for (_, x), (_, y) in zip(a[2], b[2])], env))
            if name in ("eq", "ne") and {a[0], b[0]} == {"sym", "lit"} and part(a if a[0] == "sym" else b):
                return self.answer(name, self.compare(a, b, env))
            if name in ("eq", "ne") and ground(a) and ground(b):
                return boolean((a == b) == (name == "eq"))
        return super().special(path, name, short, args, vs, env, c)


def fact(facts, a, b):
    if repr(b) < repr(a):
        o = facts.get((b, a))
        return REV[o] if o else None
    return facts.get((a, b))


@prop("C25")
def compare(ctx, rep):
    """each comparison and hash of a model, per pair of kinds and outcome of the comparisons of their parts"""
    F = ctx.F
    for f in F.find(kind="fn", crate="indradb"):
        tr = (f.trait or "").split("<")[0].split("::")[-1]
        if tr not in ("PartialEq", "PartialOrd", "Ord", "Hash") or f.file.endswith("models/json.rs") or not (f.file.startswith("lib/src/models/") or f.file.endswith("memory/datastore.rs")):
            continue
        if f.name not in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "hash"):
            rep.missing(f"{f.label()}: unknown way to compare")
            continue
        ty = f.label()[1:].split(" as ")[0]
        ads = [a for p, a in F.adts.items() if p.startswith("indradb::") and p.split("::")[-1] == ty]
        if len(ads) != 1:
            rep.missing(f"{f.label()}: {len(ads)} types of that name")
            continue
        rep.analysed(f)
        variants = [(n, [x[0] for x in fs]) for n, fs in ads[0]["variants"]]

        def value(v, side):
            n, fs = v
            return ("agg", n, tuple((x, sym("part", n, x, side)) for x in fs))

        def run(args, env):
            A = Compare(F)
            try:
                return A.run(f, args, env), A
            except Stuck:
                rep.missing(f.label() + ": not decided within its budget")
                return [], A
            finally:
                rep.steps += A.steps
        if f.name == "hash":
            for v in variants:
                idents = IDENTITY.get(ty, v[1])
                outs, A = run([("ref", SA, ()), ("ref", ST, ())], {SA: value(v, "a"), ST: ("hasher", "state", ())})
                if not outs:
                    rep.missing(f"{f.label()} of {v[0]} gives nothing")
                for _, e in outs:
                    h = e.get(ST, TOP)
                    fed = h[2] if h[0] == "hasher" else None
                    bad = ["something unknown"] if fed is None else [pj(x) for x in fed if x[0] != "i" and not ground(x) and not (part(x) and x[2][1] in idents)]
                    rep.check(not bad, f"{f.label()}: {v[0]} hashes {', '.join(bad)}"[:200],
                              f"{f.label()} of {v[0]} feeds {', '.join(bad)}, which equality does not look at, so that equal values may hash differently; {f.file}", f"{f.label()} of {v[0]}")
            continue
        for va in variants:
            for vb in variants:
                if f.name not in ("eq", "ne") and va is not vb:
                    continue  # (no model with several kinds has an order)
                outs, A = run([("ref", SA, ()), ("ref", SB, ())], {SA: value(va, "a"), SB: value(vb, "b")})
                outs = [y for v, e in outs for y in (A.decide(v, e) or [(v, e)])]
                if not outs:
                    rep.missing(f"{f.label()} of {va[0]} and {vb[0]} gives nothing")
                idents = IDENTITY.get(ty, va[1])
                for v, e in outs:
                    facts = {k[1]: x for k, x in e.items() if k[0] == "fact"}
                    same = [fact(facts, sym("part", va[0], x, "a"), sym("part", va[0], x, "b")) for x in idents] if va is vb else None
                    if va is not vb:
                        want = "Less"
                    else:
                        want = "Equal"
                        for o in same:
                            if o != "Equal":
                                want = o
                                break
                        if f.name in ("eq", "ne") and want is None and any(o in ("Less", "Greater") for o in same):
                            want = "Less"
                    if want is None:
                        exp = None
                    elif f.name in ("eq", "ne"):
                        exp = boolean((want == "Equal") == (f.name == "eq"))
                    else:
                        exp = A.answer(f.name, [(want, e)])[0][0]
                    given = ", ".join(f"{pj(a)} {o} {pj(b)}" for (a, b), o in sorted(facts.items(), key=repr))
                    how = "outbound id, type and inbound id in this order" if ty == "Edge" else "their ids alone" if ty == "Vertex" else "all their parts"
                    rep.check(exp is not None and v == exp, f"{f.label()} of {va[0]} and {vb[0]}: {pj(v)}"[:200],
                              f"{f.label()} of {va[0]} and {vb[0]} gives {pj(v)}{' where ' + given if given else ''}; they are to be compared by {how}; {f.file}", f"{f.label()} of {va[0]} and {vb[0]}")


# the parts of what each constructor makes, as its arguments (numbers), or parts of its own value
MAKERS = {"Edge::new": ("Edge", (0, 1, 2)), "Vertex::with_id": ("Vertex", (0, 1)), "Vertex::new": ("Vertex", (None, 0)), "VertexProperty::new": ("VertexProperty", (0, 1)),
          "NamedProperty::new": ("NamedProperty", (0, 1)), "VertexProperties::new": ("VertexProperties", (0, 1)), "EdgeProperties::new": ("EdgeProperties", (0, 1)),
          "EdgeProperty::new": ("EdgeProperty", (0, 1)), "Edge::reversed": ("Edge", ("inbound_id", "t", "outbound_id"))}


@prop("C25")
def makers(ctx, rep):
    """what each constructor, clone and the reversal of an edge hold, part by part"""
    F = ctx.F
    fns = {}
    for f in F.find(kind="fn", crate="indradb"):
        if not f.file.startswith("lib/src/models/") or f.file.endswith("models/json.rs"):
            continue
        lab = f.label()
        if not f.trait and lab in MAKERS:
            fns[lab] = (f, ) + MAKERS[lab]
        elif (f.trait or "").split("<")[0].split("::")[-1] == "Clone" and f.name == "clone":
            fns[lab] = (f, lab[1:].split(" as ")[0], None)
    for lab in MAKERS:
        if lab not in fns:
            rep.missing(lab)
    for lab, (f, ty, want) in sorted(fns.items()):
        ads = [a for p, a in F.adts.items() if p.startswith("indradb::") and p.split("::")[-1] == ty]
        if len(ads) != 1:
            rep.missing(f"{lab}: {len(ads)} types of that name")
            continue
        rep.analysed(f)
        own = want is None or any(isinstance(w, str) for w in want)
        for n, fs in ads[0]["variants"]:
            names = [x[0] for x in fs]
            A = Compare(F)
            whole = ("agg", n, tuple((x, sym("part", n, x, "a")) for x in names))
            args = [("ref", SA, ())] if own else [sym("part", "given", str(i), "a") for i in range(len(want))]
            try:
                outs = A.run(f, args, {SA: whole} if own else {})
            except Stuck:
                rep.missing(lab + ": not decided within its budget")
                continue
            finally:
                rep.steps += A.steps
            if not outs:
                rep.missing(f"{lab} of {n} gives nothing")
            exp = [sym("part", n, x, "a") for x in names] if want is None else [None if w is None else sym("part", n, w, "a") if isinstance(w, str) else args[w] for w in want]
            for v, e in outs:
                v = A.solidall(e, v)
                if want is None and not names and len(ads[0]["variants"]) == 1:
                    continue  # (a type with one value)
                got = dict(v[2]) if v[0] == "agg" and v[1] == n else {}
                bad = [x for x, w in zip(names, exp) if w is not None and got.get(x) != w]
                if want is None:
                    msg = f"a clone of {n} has another {', '.join(bad) or 'kind'}"
                elif own:
                    msg = f"{lab} gives {pj(v)}: {', '.join(bad) or 'it'} is not that of the other end"
                else:
                    msg = f"{lab} gives {pj(v)}: {', '.join(bad) or 'it'} is not what was given"
                rep.check(not bad and v[0] == "agg" and v[1] == n and len(exp) == len(names), f"{lab} of {n}: {', '.join(bad) or pj(v)}"[:200], f"{msg}; {f.file}"[:400], f"{lab} of {n}")


@prop("C25")
def directions(ctx, rep):
    """the names of edge directions: written and parsed alike"""
    F = ctx.F
    ads = next((a for p, a in F.adts.items() if p.startswith("indradb::") and p.endswith("::EdgeDirection")), None)
    parse = F.one(name="from_str", self_ty="EdgeDirection", kind="fn")
    write = next((f for f in F.find(name="from", kind="fn", crate="indradb", self_ty="String") if "EdgeDirection" in f.locals[1][0]), None)
    if not ads or parse is None or write is None:
        rep.missing("EdgeDirection, its from_str and its name")
        return
    rep.analysed(parse, write)
    names = {}
    for d, _ in ads["variants"]:
        A = Compare(F)
        for v, e in A.run(write, [agg(d)], {}):
            v = A.solidall(e, v)
            if rep.check(v[0] == "lit" and names.setdefault(v[1], d) == d, f"name of {d}: {pj(v)}"[:200], f"the name of EdgeDirection::{d} is {pj(v)[:100]}, which is no text of its own; {write.file}", f"name of {d}"):
                names[v[1]] = d
        rep.steps += A.steps
    A = Compare(F)
    text = sym("part", "str", "text", "a")
    for v, e in A.run(parse, [text], {}):
        v = A.solidall(e, v)
        eq = {x[1] for k, o in e.items() if k[0] == "fact" and o == "Equal" for x in k[1] if x[0] == "lit"}
        ne = {x[1] for k, o in e.items() if k[0] == "fact" and o != "Equal" for x in k[1] if x[0] == "lit"}
        if len(eq) > 1:
            continue  # (no text is both)
        want = names.get(next(iter(eq))) if eq else None
        got = dict(v[2]).get("0", TOP)[1] if v[0] == "agg" and v[1] == "Ok" else None
        ok = (got == want if eq else v[0] == "agg" and v[1] == "Err" and ne >= set(names)) and v[0] == "agg"
        rep.check(ok, f"parsing {sorted(eq)} except {sorted(ne)}: {pj(v)}"[:200], f"parsing an EdgeDirection gives {pj(v)[:100]} for {('the text ' + repr(sorted(eq)[0])) if eq else 'a text other than ' + str(sorted(ne))}; {parse.file}", f"parsing {sorted(eq) or 'other texts'}")
    rep.steps += A.steps
