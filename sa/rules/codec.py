"""C19: keys of the RocksDB database are written and read without loss"""
from core import prop
from facts import strip_generics
from absint import Stuck, TOP, TRUE, FALSE, UNIT, SEGS, agg, boolean
from values import Mem, PANIC, sym
from rules.models import show, root_fn

NAME, STR, UU, JS, PRIOR, REST = (sym(x) for x in ("name", "string", "uuid", "json", "before", "rest"))
TYPES = {NAME: "str", STR: "str", UU: "uuid", PRIOR: "bytes", REST: "bytes"}


class Codec(Mem):
    def __init__(self, F, keep=()):
        super().__init__(F, TYPES, {"Hash::hash", "Identifier::new", "Identifier::new_unchecked", *keep})

    def small(self, v):
        return v == sym("len", NAME)

    def special(self, path, name, short, args, vs, env, c):
        if short in ("Intern::new", "Intern::from", "Intern::from_ref"):
            return args[0] if args[0][0] != "ref" else vs[0]
        if short == "Identifier::new":
            return agg("Ok", agg("Identifier", vs[0]))
        if short == "Identifier::new_unchecked":
            return agg("Identifier", vs[0])
        if short == "Component::write" and vs[1][0] == "cur":
            return [(agg("Ok", UNIT), self.upd(env, args[1], ("cur", vs[1][1] + (("all", vs[0]),))))]
        if short == "Component::byte_len":
            return sym("len", vs[0])
        if name == "build" and path.endswith("util::build"):
            return TOP
        return None


def part(x):
    if x[0] == "all":
        return f"the bytes of {pv(x[1])}"
    if x[0] == "be64":
        return f"{pv(x[1])} as 8 bytes"
    if x[0] in ("zero", "unknown"):
        return f"{x[0]} bytes"
    return f"byte {pv(x)}"


def pv(v):
    if not isinstance(v, tuple):
        return str(v)
    if v[0] == "vec":
        return "[" + ", ".join(part(x) for x in v[1]) + "]"
    if v[0] == "cur":
        return "[" + ", ".join(part(x) for x in v[1]) + "]"
    if v[0] == "sym":
        return v[1] + ("(" + ", ".join(pv(x) for x in v[2]) + ")" if v[2] else "")
    if v[0] == "agg":
        return v[1] + ("(" + ", ".join(pv(x) for _, x in v[2]) + ")" if v[2] else "")
    if v[0] == "hasher":
        return f"{v[1]} fed {', '.join(pv(x) for x in v[2])}"
    if v[0] == "panic":
        return "panic"
    return str(v[1]) if len(v) > 1 else "unknown" if v == TOP else v[0]


COMPONENTS = {
    "Uuid": (agg("Uuid", UU), (("all", UU),), ("i", 16)),
    "FixedLengthString": (agg("FixedLengthString", STR), (("all", STR),), sym("len", STR)),
    "Identifier": (agg("Identifier", agg("Identifier", NAME)), (sym("len", NAME), ("all", NAME)), sym("Add", sym("len", NAME), ("i", 1))),
    "Json": (agg("Json", JS), (("be64", sym("finish", ("hasher", "DefaultHasher", (JS,)))),), ("i", 8)),
}
READS = {
    "read_uuid": [((("all", UU),), UU)],
    "read_identifier": [((sym("len", NAME), ("all", NAME)), agg("Identifier", NAME)), ((("i", 0),), agg("Identifier", ("vec", ())))],
    "read_u64": [((("be64", sym("n")),), sym("n"))],
}


@prop("C19")
def keys(ctx, rep):
    """keys are built and read back part by part"""
    F = ctx.F
    fns = {f.label(): f for f in F.find(kind="fn", crate="indradb") if f.file.endswith("lib/src/util.rs")}

    def get(lab):
        f = fns.get(lab)
        if f is None:
            rep.missing(lab)
        else:
            rep.analysed(f)
        return f

    def ev(f, args, env, keep=()):
        A = Codec(F, keep)
        try:
            return A, A.run(f, args, env)
        except Stuck:
            rep.missing(f.label() + ": not decided within its budget")
            return A, []
        finally:
            rep.steps += A.steps

    SELF, CUR = (0, "self"), (0, "cursor")
    f, g = get("Component::write"), get("Component::byte_len")
    for name, (value, want, size) in COMPONENTS.items():
        if f is not None:
            A, outs = ev(f, [("ref", SELF, ()), ("ref", CUR, ())], {SELF: value, CUR: ("cur", (("all", PRIOR),))})
            for v, env in outs:
                ok = v == agg("Ok", UNIT) and env.get(CUR) == ("cur", (("all", PRIOR),) + want)
                rep.check(ok, f"write of {name}: {pv(v)}, {pv(env.get(CUR, TOP))}"[:200], f"Component::write of {name} leaves {pv(env.get(CUR, TOP))} and gives {pv(v)}, expected {pv(('cur', (('all', PRIOR),) + want))} and Ok; {f.file}", f"write of {name}: {pv(('vec', want))}")
            if not outs:
                rep.missing(f"Component::write of {name} gives nothing")
        if g is not None:
            A, outs = ev(g, [("ref", SELF, ())], {SELF: value})
            vs = {v for v, _ in outs}
            rep.check(vs == {size}, f"byte_len of {name}: {sorted(map(pv, vs))}"[:200], f"Component::byte_len of {name} gives {', '.join(sorted(map(pv, vs)))}, expected {pv(size)}; {g.file}", f"byte_len of {name}: {pv(size)}")
    f = get("build")
    if f is not None:
        for n in range(7):
            comps = tuple(sym(f"component {k}") for k in range(n))
            A, outs = ev(f, [("ref", SELF, ())], {SELF: ("vec", comps)}, ("Component::write", "Component::byte_len"))
            vs = {v for v, _ in outs}
            want = ("vec", tuple(("all", c) for c in comps))
            rep.check(vs == {want}, f"build of {n}: {sorted(map(pv, vs))}"[:200], f"build of {n} components gives {', '.join(sorted(map(pv, vs)))}, expected {pv(want)}; {f.file}", f"build of {n}: each in order")
    for lab, cases in READS.items():
        f = get(lab)
        if f is None:
            continue
        for segs, want in cases:
            A, outs = ev(f, [("ref", CUR, ())], {CUR: ("cur", segs + (("all", REST),))})
            for v, env in outs:
                ok = v == agg("Ok", want) and env.get(CUR) == ("cur", (("all", REST),))
                rep.check(ok, f"{lab}: {pv(v)}, {pv(env.get(CUR, TOP))}"[:200], f"{lab} of {pv(('vec', segs))} gives {pv(v)} and leaves {pv(env.get(CUR, TOP))}, expected {pv(want)} and the rest; {f.file}", f"{lab}: {pv(want)}")
            if not outs:
                rep.missing(f"{lab} gives nothing")
        short = [(), (("short",),)] + ([(sym("len", NAME),), (sym("len", NAME), ("short",))] if lab == "read_identifier" else [])
        for segs in short:
            A, outs = ev(f, [("ref", CUR, ())], {CUR: ("cur", segs)})
            bad = [v for v, _ in outs if not (v[0] == "agg" and v[1] == "Err")]
            if ("short",) in segs and lab == "read_identifier" and len(segs) == 1:
                continue
            rep.check(not bad and bool(outs), f"{lab} of a cut key: {pv(bad[0]) if bad else 'nothing'}"[:200], f"{lab} of a key that ends early gives {pv(bad[0]) if bad else 'nothing'}, expected an error; {f.file}", f"{lab} of a cut key: an error")
    f = get("read_fixed_length_string")
    if f is not None:
        A, outs = ev(f, [("ref", CUR, ())], {CUR: ("cur", (("all", STR),))})
        vs = {v for v, _ in outs}
        rep.check(vs == {agg("Ok", STR)}, f"read_fixed_length_string: {sorted(map(pv, vs))}"[:200], f"read_fixed_length_string gives {', '.join(sorted(map(pv, vs)))}, expected all that is left; {f.file}", "read_fixed_length_string: all that is left")
    # strings of unknown length only at the end of keys
    n = 0
    for f in F.find(crate="indradb"):
        if not f.blocks or f.file.endswith("util.rs"):
            continue
        made = {}
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2].endswith("util::Component"):
                    made[s[1][0]] = s[2][3]
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "array" and s[2][5] and any(o[0] in ("copy", "move") and o[1][0] in made for o in s[2][5]):
                    kinds = [made.get(o[1][0]) if o[0] in ("copy", "move") else None for o in s[2][5]]
                    n += 1
                    rep.sites += 1
                    rep.check("FixedLengthString" not in kinds[:-1], f"{root_fn(F, f).label()}: {kinds}", f"{f.label()} builds a key of {', '.join(map(str, kinds))}: what follows a string without its length cannot be told from it; {f.file}:{s[3]}", f"{f.label()}: {kinds}")
    if n < 12:
        rep.missing(f"keys built in the store ({n} found)")


class Bytes(Mem):
    """a UUID whose bytes are told apart from 255"""

    def __init__(self, F, cells):
        super().__init__(F, {UU: "uuid"})
        self.cells = cells

    def bytes(self, v):
        return self.cells if v == UU else super().bytes(v)

    def whole(self, items):
        return UU if tuple(items) == self.cells else super().whole(items)


EXTRACT = {"extract_vertices": "Vertices", "extract_edges": "Edges", "extract_count": "Count", "extract_vertex_properties": "VertexProperties", "extract_edge_properties": "EdgeProperties"}


@prop("C34")
def utilities(ctx, rep):
    """next_uuid and extract_*"""
    F = ctx.F
    fns = {f.label(): f for f in F.find(kind="fn", crate="indradb") if f.file.endswith("lib/src/util.rs")}
    f = fns.get("next_uuid")
    if f is None:
        rep.missing("next_uuid")
    else:
        rep.analysed(f)
        for k in range(-1, 16):
            # byte k is the last one that is not 255
            cells = tuple(("rng", f"byte {j}", 0, 255) if j < k else ("rng", f"byte {j}", 0, 254) if j == k else ("i", 255) for j in range(16))
            A = Bytes(F, cells)
            try:
                outs = A.run(f, [UU])
            except Stuck:
                rep.missing("next_uuid: not decided within its budget")
                break
            rep.steps += A.steps
            want = ("vec", tuple(cells[:k]) + (sym("Add", cells[k], ("i", 1)),) + (("i", 0),) * (15 - k)) if k >= 0 else None
            vs = {v for v, _ in outs}
            what = f"whose byte {k} is the last below 255" if k >= 0 else "of only 255s"
            if want is None:
                ok = bool(vs) and all(v[0] == "agg" and v[1] == "Err" and v[2][0][1] == agg("CannotIncrementUuid") for v in vs)
            else:
                ok = vs == {agg("Ok", want)}
            rep.check(ok, f"next_uuid of an id {what}: {sorted(map(pv, vs))}"[:200], f"next_uuid of an id {what} gives {', '.join(sorted(map(pv, vs)))}, expected {pv(want) if want else 'CannotIncrementUuid'}; {f.file}", f"next_uuid of an id {what}")
    payload, other = sym("payload"), sym("other")
    for lab, variant in EXTRACT.items():
        f = fns.get(lab)
        if f is None:
            rep.missing(lab)
            continue
        rep.analysed(f)
        cases = [((), agg("None"), "no output")]
        for v in EXTRACT.values():
            for before in ((), (agg(variant, other),), (agg(variant, other), agg("Count" if variant != "Count" else "Edges", other))):
                cases.append((before + (agg(v, payload),), agg("Some", payload) if v == variant else agg("None"), f"{len(before)} outputs and then {v}"))
        for outs_, want, what in cases:
            A = Mem(F)
            try:
                vs = {v for v, _ in A.run(f, [("vec", outs_)])}
            except Stuck:
                rep.missing(lab + ": not decided within its budget")
                break
            rep.steps += A.steps
            rep.check(vs == {want}, f"{lab} of {what}: {sorted(map(pv, vs))}"[:200], f"{lab} of {what} gives {', '.join(sorted(map(pv, vs)))}, expected {pv(want)}; {f.file}", f"{lab} of {what}: {pv(want)}")
