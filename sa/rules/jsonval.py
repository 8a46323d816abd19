"""C21: JSON values compare and hash as the indexes rely on"""
from core import prop
from facts import strip_generics
from absint import Stuck, TOP, TRUE, FALSE, UNIT, agg, boolean
from values import Mem, PANIC, sym
from rules.codec import pv
from rules.models import root_fn

ST = (0, "state")
INTS = ("neg", "pos", "big")  # i64 below zero, i64 from zero on, u64 beyond i64
KINDS = ["Null", "Bool"] + ["Number " + k for k in INTS + ("float",)] + ["String"] + [f"{t} {n}" for t in ("Array", "Object") for n in range(3)]


def value(kind, side):
    t, _, k = kind.partition(" ")
    if t == "Null":
        return agg("Null")
    if t == "Number":
        return agg("Number", sym("number", k, side))
    if t in ("Bool", "String"):
        return agg(t, sym(t.lower(), side))
    if t == "Array":
        return agg("Array", ("vec", tuple(sym("child", side, i) for i in range(int(k)))))
    return agg("Object", ("vec", tuple(agg("", sym("string", side + str(i)), sym("child", side, i)) for i in range(int(k)))))


def num(v):
    return v[2][0] if v[0] == "sym" and v[1] == "number" else None


def pj(v):
    if v[0] == "sym":
        return v[1] + (" " + " ".join(x if isinstance(x, str) else str(x) if isinstance(x, int) else pj(x) for x in v[2]) if v[2] else "")
    if v[0] == "agg":
        return v[1] + ("(" + ", ".join(pj(x) for _, x in v[2]) + ")" if v[2] else "")
    if v[0] == "vec":
        return "[" + ", ".join(pj(x) for x in v[1]) + "]"
    if isinstance(v[0], str) and v[0] in ("u8", "w64", "str", "child", "raw"):
        return v[0] + " " + pj(v[1])
    return pv(v)


REV = {"Less": "Greater", "Greater": "Less", "Equal": "Equal", "None": "None"}
SCALARS = {"bool": "u8", "u8": "u8", "i64": "w64", "u64": "w64", "std::string::String": "str", "str": "str", "i8": "u8", "usize": "w64", "isize": "w64"}


class JsonVal(Mem):
    def __init__(self, F):
        super().__init__(F)
        self.size_bytes = 0

    def compare(self, a, b, env, partial=True):
        """outcomes of a comparison: [(outcome, env)], remembered in the environment"""
        if a == b:
            return [("Equal", env)]
        ka, kb = num(a), num(b)
        if ka in INTS and kb in INTS and ka != kb:
            return [("Less" if INTS.index(ka) < INTS.index(kb) else "Greater", env)]
        if a[0] == "i" and b[0] == "i":
            return [("Less" if a[1] < b[1] else "Greater" if a[1] > b[1] else "Equal", env)]
        flip = repr(b) < repr(a)
        key = ("fact", (b, a) if flip else (a, b))
        if key in env:
            o = env[key]
            return [(REV[o] if flip else o, env)]
        outs = []
        for o in ("Less", "Equal", "Greater") + (("None",) if partial and a[1] == "child" else ()):
            e = dict(env)
            e[key] = REV[o] if flip else o
            outs.append((o, e))
        return outs

    def intercept(self, fn, args, vs, env):
        """what the repository's own functions do with the values nested in an array or object is the same again"""
        if len(vs) == 2 and vs[0][0] == "sym" and vs[0][1] == "child":
            if vs[1][0] == "sym" and vs[1][1] == "child":
                return [(agg("Some", agg(o)) if o != "None" else agg("None"), e) for o, e in self.compare(vs[0], vs[1], env)]
            if vs[1][0] == "hasher":
                h = vs[1]
                return [(UNIT, self.upd(env, args[1], ("hasher", h[1], h[2] + (("child", vs[0]),))))]
        return None

    def special(self, path, name, short, args, vs, env, c):
        v = vs[0] if vs else None
        tr = c.get("trait", "").split("::")[-1].split("<")[0]
        if v is None:
            return None
        k = num(v)
        if k and "serde_json::Number" in path:
            if name in ("is_i64", "is_u64", "is_f64"):
                return boolean(k in {"is_i64": ("neg", "pos"), "is_u64": ("pos", "big"), "is_f64": ("float",)}[name])
            if name in ("as_i64", "as_u64", "as_i128", "as_u128"):
                return agg("Some", v) if k in {"as_i64": ("neg", "pos"), "as_u64": ("pos", "big"), "as_i128": INTS, "as_u128": ("pos", "big")}[name] else agg("None")
            if name == "as_f64":
                return agg("Some", v if k == "float" else sym("as f64", v))
        if k in INTS and name in ("try_from", "try_into"):
            ty = (c.get("targs") or [""])[-1 if name == "try_into" else 0]
            fits = {"i64": ("neg", "pos"), "u64": ("pos", "big"), "i128": INTS, "u128": ("pos", "big")}.get(ty)
            if fits:
                return agg("Ok", v) if k in fits else agg("Err", sym("out of range"))
        if k and name in ("from", "into") and k in INTS:
            return v
        if name == "to_bits":
            return sym("to_bits", v)
        two = len(vs) == 2 and all(x[0] in ("sym", "i") for x in vs)
        if two and name in ("partial_cmp", "cmp", "total_cmp", "eq", "ne", "lt", "le", "gt", "ge") and (tr in ("PartialOrd", "Ord", "PartialEq") or name == "total_cmp"):
            a, b = v, vs[1]
            if name == "total_cmp":
                a, b = sym("total", a), sym("total", b)
            outs = []
            for o, e in self.compare(a, b, env, False):
                if name in ("cmp", "total_cmp"):
                    outs.append((agg(o), e))
                elif name == "partial_cmp":
                    outs.append((agg("Some", agg(o)), e))
                else:
                    outs.append((boolean(o in {"eq": ("Equal",), "ne": ("Less", "Greater"), "lt": ("Less",), "le": ("Less", "Equal"), "gt": ("Greater",), "ge": ("Greater", "Equal")}[name]), e))
            return outs
        if tr == "PartialEq" and name in ("eq", "ne") and len(vs) == 2 and all(x[0] == "agg" for x in vs):
            a, b = self.solidall(env, v), self.solidall(env, vs[1])
            if ground(a) and ground(b):
                return boolean((a == b) == (name == "eq"))
        if v[0] == "agg" and v[1] in REV and not v[2]:
            if name == "reverse":
                return agg(REV[v[1]])
            if name in ("is_eq", "is_ne", "is_lt", "is_gt", "is_le", "is_ge"):
                return boolean({"is_eq": v[1] == "Equal", "is_ne": v[1] != "Equal", "is_lt": v[1] == "Less", "is_gt": v[1] == "Greater", "is_le": v[1] != "Greater", "is_ge": v[1] != "Less"}[name])
            if name == "then":
                return v if v[1] != "Equal" else vs[1]
            if name == "then_with":
                return v if v[1] != "Equal" else self.apply(args[1], [], env)
        if v[0] == "vec" and name in ("iter", "into_iter") and "map" in path.lower() and c.get("path", "").startswith("serde_json"):
            return ("it", v[1])
        if v[0] == "vec" and name in ("keys", "values"):
            return ("it", tuple(dict(x[2])["0" if name == "keys" else "1"] for x in v[1]))
        # hashing: the state holds what it was fed
        if vs[-1][0] == "hasher" and len(vs) == 2 and tr != "Hasher":
            feed = None
            if tr == "Hash" and name == "hash":
                ty = strip_generics((c.get("targs") or [c.get("self", "")])[0]).lstrip("&")
                if ty in SCALARS and v[0] in ("sym", "i"):
                    feed = (SCALARS[ty], v)
            if feed:
                h = vs[1]
                return [(UNIT, self.upd(env, args[1], ("hasher", h[1], h[2] + (feed,))))]
        if v[0] == "hasher" and len(vs) == 2:
            feed = {"write_u8": "u8", "write_i8": "u8", "write_u64": "w64", "write_i64": "w64", "write_usize": "w64", "write_isize": "w64", "write_str": "str"}.get(name)
            if feed or name.startswith("write"):
                x = (feed, vs[1]) if feed else ("raw", sym(name, vs[1]))
                return [(UNIT, self.upd(env, args[0], ("hasher", v[1], v[2] + (x,))))]
        return None

    def relation(self, op, a, b):
        return sym(op, a, b)

    def rvalue(self, fid, r, env):
        if r[0] == "cast" and len(r) > 3 and "IntToInt" in str(r[1]):
            v = self.val(env, self.operand(fid, r[2], env))
            k = num(v)
            if k and r[3] != "i128" and k not in {"i64": ("neg", "pos"), "u64": ("pos", "big"), "u128": ("pos", "big")}.get(r[3], ()):
                return sym("as " + r[3], v)
        return super().rvalue(fid, r, env)


def ground(v):
    return v[0] == "i" or v[0] == "agg" and all(ground(x) for _, x in v[2])


def expected(ka, kb, facts):
    """(outcome, facts it rests on), None where a needed fact is not there"""
    (ta, _, na), (tb, _, nb) = ka.partition(" "), kb.partition(" ")
    if ta != tb:
        return "None"

    def fact(a, b):
        if repr(b) < repr(a):
            o = facts.get((b, a))
            return REV[o] if o else None
        return facts.get((a, b))
    if ta == "Null":
        return "Equal"
    if ta in ("Bool", "String"):
        return fact(sym(ta.lower(), "a"), sym(ta.lower(), "b"))
    if ta == "Number":
        x, y = sym("number", na, "a"), sym("number", nb, "b")
        if na in INTS and nb in INTS and na != nb:
            return "Less" if INTS.index(na) < INTS.index(nb) else "Greater"
        if na in INTS and nb == "float":
            x = sym("as f64", x)
        elif na == "float" and nb in INTS:
            y = sym("as f64", y)
        return fact(x, y)
    for i in range(2):
        la, lb = i < int(na), i < int(nb)
        if not la or not lb:
            return "Equal" if la == lb else "Greater" if la else "Less"
        if ta == "Object":
            o = fact(sym("string", f"a{i}"), sym("string", f"b{i}"))
            if o != "Equal":
                return o
        o = fact(sym("child", "a", i), sym("child", "b", i))
        if o != "Equal":
            return o
    return "Equal"


def hash_format(kind):
    t, _, k = kind.partition(" ")
    tag = ["Null", "Bool", "Number", "String", "Array", "Object"].index(t)
    r = (("u8", ("i", tag)),)
    if t == "Bool":
        r += (("u8", sym("bool", "a")),)
    elif t == "Number":
        n = sym("number", k, "a")
        r += (("w64", sym("to_bits", n) if k == "float" else n),)
    elif t == "String":
        r += (("str", sym("string", "a")),)
    elif t == "Array":
        r += tuple(("child", sym("child", "a", i)) for i in range(int(k)))
    elif t == "Object":
        for i in range(int(k)):
            r += (("str", sym("string", f"a{i}")), ("child", sym("child", "a", i)))
    return r


@prop("C21")
def json_values(ctx, rep):
    """comparison and hashing of JSON values, per pair of kinds and outcome of the comparisons of their parts"""
    F = ctx.F
    fns = {f.label(): f for f in F.find(kind="fn", crate="indradb") if f.file.endswith("models/json.rs")}

    def get(lab):
        f = fns.get(lab)
        if f is None:
            rep.missing(lab)
        else:
            rep.analysed(f)
        return f

    def run(f, args, env):
        A = JsonVal(F)
        try:
            return A.run(f, args, env)
        except Stuck:
            rep.missing(f.label() + ": not decided within its budget")
            return []
        finally:
            rep.steps += A.steps
    SA, SB = (0, "a"), (0, "b")
    cmp_, eq, hsh = get("<Json as PartialOrd>::partial_cmp"), get("<Json as PartialEq>::eq"), get("<Json as Hash>::hash")
    for f in (cmp_, eq):
        if f is None:
            continue
        for ka in KINDS:
            for kb in KINDS:
                env = {SA: agg("Json", value(ka, "a")), SB: agg("Json", value(kb, "b"))}
                outs = run(f, [("ref", SA, ()), ("ref", SB, ())], env)
                if not outs:
                    rep.missing(f"{f.label()} of {ka} and {kb} gives nothing")
                for v, e in outs:
                    facts = {k[1]: x for k, x in e.items() if k[0] == "fact"}
                    want = expected(ka, kb, facts)
                    if f is cmp_:
                        ok = want is not None and v == (agg("None") if want == "None" else agg("Some", agg(want)))
                    else:
                        ok = want is not None and v == boolean(want == "Equal")
                    given = ", ".join(f"{pj(a)} {o} {pj(b)}" for (a, b), o in sorted(facts.items(), key=repr))
                    rep.check(ok, f"{f.label()} of {ka} and {kb}: {pj(v)}"[:200], f"{f.label()} of {ka} and {kb} gives {pj(v)}{' where ' + given if given else ''}, expected {want if want else 'their parts to be compared'}; {f.file}", f"{f.label()} of {ka} and {kb}")
    if hsh is not None:
        got = {}
        for k in KINDS:
            outs = run(hsh, [("ref", SA, ()), ("ref", ST, ())], {SA: agg("Json", value(k, "a")), ST: ("hasher", "state", ())})
            if not outs:
                rep.missing(f"hash of {k} gives nothing")
            for v, e in outs:
                h = e.get(ST, TOP)
                fed = h[2] if h[0] == "hasher" else (("raw", h),)
                got.setdefault(k, set()).add(fed)
                want = hash_format(k)
                rep.check(fed == want, f"hash of {k}: {', '.join(map(pj, fed))}"[:200], f"hashing {k} feeds {', '.join(map(pj, fed))}, expected {', '.join(map(pj, want))}, as the indexes of existing databases have it; {hsh.file}", f"hash of {k}")
        # equal values hash the same
        for k in INTS:
            rep.check(got.get(f"Number {k}") != {hash_format(f"Number {k}")} or got.get("Number float") != {hash_format("Number float")}, f"hash of equal numbers: {k} and float",
                      f"an integer ({k}) and an equal floating point number compare as equal, but hash differently: one feeds the integer, the other its bits; {hsh.file} in {root_fn(F, fns.get('hash', hsh)).label()}")
        rep.check(got.get("Number float") != {hash_format("Number float")}, "hash of equal numbers: 0.0 and -0.0", f"0.0 and -0.0 compare as equal, but hash differently, by their bits; {hsh.file}")
        # different values hash differently
        for t in ("Array", "Object"):
            g = [got.get(f"{t} {n}") for n in range(3)]
            rep.check(g != [{hash_format(f"{t} {n}")} for n in range(3)], f"hash of nested {t.lower()}s", f"hashing {'an array' if t == 'Array' else 'an object'} feeds neither its length nor its end, so that different nested values hash the same; {hsh.file}")
    # a Json holds the value it was made of
    for lab, what in (("Json::new", "new"), ("<Json as From>::from", "from")):
        for f in [f for f in fns.values() if f.label() == lab] + [f for f in F.find(kind="fn", crate="indradb") if f.label() == lab and f.file.endswith("models/json.rs") and f is not fns.get(lab)]:
            rep.analysed(f)
            vs = {v for v, _ in run(f, [sym("value")], {})}
            held = set()
            for v in vs:
                v = v[2][0][1] if v[0] == "agg" and v[1] == "Json" and v[2] else v
                held.add(v[2][0] if v[0] == "sym" and v[1] in ("Arc::new", "Arc::from") else v)
            ok = held == {sym("value")}
            rep.check(bool(ok), f"{lab}: {sorted(map(pj, vs))}"[:200], f"{lab} makes {', '.join(sorted(map(pj, vs)))}, expected the given value; {f.file}", f"{lab}: the value")
