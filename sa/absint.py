"""A small abstract interpreter over MIR for pure functions: finite partitions of the inputs, unknown values, forks.

Values: ("i", n) integers, booleans and characters (a representative of their cell of the partition); ("agg", variant, ((field, value), ..));
("ref", location, path); ("str", length, ok, bad): a string whose characters all lie in the cell of `ok`, except that at least one lies in the
cell of `bad` when that is not None; ("iter", ok, bad, seen): its characters, `seen` once a bad one was passed; ("clo", id, captures);
("sym", name, arguments); TOP."""
from ast import literal_eval
from facts import strip_generics

TOP = ("top",)
TRUE, FALSE = ("i", 1), ("i", 0)
UNIT = ("agg", "", ())
SAME = {"into", "from", "to_string", "to_owned", "clone", "as_str", "deref", "as_ref", "borrow", "as_mut", "into_boxed_str", "into_string", "deref_mut", "borrow_mut", "by_ref", "into_iter", "must_use", "to_string_lossy", "copied", "cloned", "iter"}
BINS = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}
SEGS = {"all", "be64", "zero", "unknown"}  # items of a byte string that stand for several bytes


class Stuck(Exception):
    pass


def agg(variant, *vals, **kw):
    return ("agg", variant, tuple((str(i), v) for i, v in enumerate(vals)) + tuple(kw.items()))


def boolean(b):
    return TRUE if b else FALSE


def uni(c, what):
    s = chr(c)
    return {"is_alphanumeric": s.isalpha() or s.isnumeric(), "is_alphabetic": s.isalpha(), "is_numeric": s.isnumeric(), "is_ascii_alphanumeric": s.isascii() and s.isalnum(),
            "is_ascii_alphabetic": s.isascii() and s.isalpha(), "is_ascii_digit": s.isascii() and s.isdigit(), "is_ascii": s.isascii(), "is_whitespace": s.isspace(),
            "is_control": ord(s) < 32 or 127 <= ord(s) < 160, "is_lowercase": s.islower(), "is_uppercase": s.isupper(), "is_ascii_lowercase": s.isascii() and s.islower(),
            "is_ascii_uppercase": s.isascii() and s.isupper(), "is_ascii_punctuation": s.isascii() and s.isprintable() and not s.isalnum() and s != " ",
            "is_ascii_graphic": s.isascii() and s.isprintable() and s != " "}.get(what)


class Item(dict):
    def __hash__(self):
        return hash(self["id"])


class Abs:
    LIMIT = 60000

    def __init__(self, F, keep=()):
        self.F = F
        self.keep = set(keep)  # functions left symbolic
        self.steps = 0
        self.nid = 0
        self.frames = {}
        self.depth = 0
        self.consts = set()
        self.unknown = set()

    # ---- memory: env maps (frame, local) -> value
    def get(self, env, loc, path):
        v = env.get(loc, TOP)
        for name in path:
            v = self.sub(env, v, name)
        return v

    def sub(self, env, v, name):
        v = self.val(env, v)
        if v[0] == "agg":
            for k, x in v[2]:
                if k == name:
                    return x
            return TOP
        if v[0] == "vec" and name[0] == "#":
            k = int(name[1:])
            return v[1][k] if k < len(v[1]) and all(x[0] not in SEGS for x in v[1][:k + 1]) else TOP
        if v[0] == "vec" and name[0] == "[" and ":" in name:
            a, b = name[1:-1].split(":")
            return ("vec", v[1][int(a):int(b)])
        if v[0] == "clo" and name.isdigit() and int(name) < len(v[2]):
            return v[2][int(name)]
        return ("sym", "." + name, (v,)) if v[0] == "sym" else TOP

    def val(self, env, v):
        n = 0
        while v[0] == "ref":
            v = self.get(env, v[1], v[2])
            n += 1
            if n > 40:
                return TOP
        return v

    def put(self, env, loc, path, x):
        if not path:
            env[loc] = x
            return
        base = self.val(env, env.get(loc, TOP)) if env.get(loc, TOP)[0] != "ref" else env[loc]
        if base[0] == "ref":
            return self.put(env, base[1], base[2] + path, x)

        def go(v, p):
            if not p:
                return x
            if v[0] == "agg":
                fs = dict(v[2])
                fs[p[0]] = go(fs.get(p[0], TOP), p[1:])
                return ("agg", v[1], tuple(fs.items()))
            if v[0] == "vec" and p[0][0] == "#" and int(p[0][1:]) < len(v[1]):
                k = int(p[0][1:])
                return ("vec", v[1][:k] + (go(v[1][k], p[1:]),) + v[1][k + 1:])
            if v[0] == "vec" and p[0][0] == "[" and ":" in p[0]:
                a, b = map(int, p[0][1:-1].split(":"))
                part = go(("vec", v[1][a:b]), p[1:])
                if part[0] == "vec":
                    return ("vec", v[1][:a] + part[1] + v[1][b:])
            return TOP
        env[loc] = go(base, path)

    def place(self, fid, pl, env):
        loc, path = (fid, pl[0]), ()
        for e in pl[1]:
            if e[0] == "d":
                v = self.get(env, loc, path)
                if v[0] == "ref":
                    loc, path = v[1], v[2]
            elif e[0] == "f" and e[3] == "std::boxed::Box":
                pass  # a box is what it holds
            elif e[0] == "f":
                path = path + (e[2] if not e[3].startswith("closure:") else str(e[1]),)
            elif e[0] == "v":
                pass
            elif e[0] == "i":
                n = self.val(env, env.get((fid, e[1]), TOP))
                path = path + (f"#{n[1]}" if n[0] == "i" else "[]",)
            elif e[0] == "c" and not e[2]:
                path = path + (f"#{e[1]}",)
            else:
                path = path + ("[]",)
        return loc, path

    def operand(self, fid, o, env):
        if o[0] in ("copy", "move"):
            loc, path = self.place(fid, o[1], env)
            return self.get(env, loc, path)
        c = o[1]
        if "int" in c:
            n = int(c["int"])
            if c["ty"].startswith("i") and c["ty"][1:].isdigit() and n >= 1 << (int(c["ty"][1:]) - 1):
                n -= 1 << int(c["ty"][1:])
            if c["ty"] not in ("bool", "char"):
                self.consts.add(n)
            return ("i", n)
        if "str" in c:
            return ("lit", c["str"])
        if c.get("ty", "").startswith("&[u8") and c.get("dbg", "").startswith('b"'):
            try:
                return ("vec", tuple(("i", b) for b in literal_eval(c["dbg"])))
            except (ValueError, SyntaxError):
                return TOP
        if "closure" in c:
            return ("clo", c["closure"], ())
        if "fn" in c:
            return ("fn", c["fn"].get("rid", c["fn"]["id"]), Item(c["fn"]))
        if c.get("ty") == "()":
            return UNIT
        if c.get("ty", "").startswith("std::option::Option<std::convert::Infallible") or c.get("ty", "").startswith("std::option::Option<!"):
            return agg("None")
        if "promoted" in c and fid in self.frames:
            pf = self.F.fns.get(f"{self.frames[fid].id}#p{c['promoted']}")
            rs = self.run(pf, []) if pf is not None else []
            return rs[0][0] if len(rs) == 1 else TOP
        if "def" in c and c["def"] in self.F.fns:
            rs = self.run(self.F.fns[c["def"]], [])
            if len(rs) == 1:
                return rs[0][0]
        return TOP

    def rvalue(self, fid, r, env):
        k = r[0]
        if k == "use" or k == "cast":
            v = self.operand(fid, r[1] if k == "use" else r[2], env)
            if k == "cast" and v[0] == "i" and len(r) > 3 and isinstance(r[3], str):
                m = {"u8": 8, "u16": 16, "u32": 32}.get(r[3])
                if m:
                    return ("i", v[1] & ((1 << m) - 1))
            return v
        if k == "ref":
            loc, path = self.place(fid, r[2], env)
            return ("ref", loc, path)
        if k == "bin":
            a, b = self.val(env, self.operand(fid, r[2], env)), self.val(env, self.operand(fid, r[3], env))
            op = r[1].replace("WithOverflow", "").replace("Unchecked", "")
            res = TOP
            if a[0] == "i" and b[0] == "i":
                x, y = a[1], b[1]
                if op in BINS:
                    res = boolean(BINS[op](x, y))
                else:
                    f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}.get(op)
                    res = ("i", f()) if f else TOP
            return agg("", res, FALSE) if r[1].endswith("WithOverflow") else res
        if k == "un":
            v = self.val(env, self.operand(fid, r[2], env))
            if r[1] == "Not" and v in (TRUE, FALSE):
                return boolean(v == FALSE)
            if r[1] == "PtrMetadata" and v[0] == "str":
                return v[1]
            return TOP
        if k == "discr":
            loc, path = self.place(fid, r[1], env)
            v = self.val(env, self.get(env, loc, path))
            if v[0] == "agg":
                for n, name, dv in r[3]:
                    if name == v[1]:
                        return ("i", int(dv))
            return TOP
        if k == "agg":
            vals = [self.operand(fid, o, env) for o in r[5]]
            if r[1] == "closure":
                return ("clo", r[2], tuple(vals))
            if r[1] == "array":
                return ("vec", tuple(vals))
            names = r[4] if r[1] == "adt" else [str(i) for i in range(len(vals))]
            return ("agg", r[3] if r[1] == "adt" else "", tuple(zip(names, vals)))
        return TOP

    # ---- execution: [(value, env)]
    def run(self, fn, args, env=None):
        env = dict(env or {})
        self.nid += 1
        fid = self.nid
        self.frames[fid] = fn
        for i, a in enumerate(args):
            env[(fid, i + 1)] = a
        work, seen, out = [(0, env)], set(), []
        while work:
            b, env = work.pop()
            self.steps += 1
            if self.steps > self.LIMIT:
                raise Stuck(fn.label())
            key = (b, frozenset((k, v) for k, v in env.items()))
            if key in seen:
                continue
            seen.add(key)
            blk = fn.blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    loc, path = self.place(fid, s[1], env)
                    v = self.rvalue(fid, s[2], env)
                    self.put(env, loc, path, v)
            t = blk["t"]
            if t[0] == "return":
                v = env.get((fid, 0), UNIT)
                v = self.solid(env, v, fid)
                o = (v, {k: x for k, x in env.items() if k[0] != fid})
                if o not in out:
                    out.append(o)
            elif t[0] == "switch":
                v = self.val(env, self.operand(fid, t[1], env))
                tg = [(int(x), y) for x, y in t[2]]
                known = [(v, env)] if v[0] == "i" else self.decide(v, env)
                if known:
                    for x, e in known:
                        work.append((dict(tg).get(x[1], t[3]), e))
                else:
                    for y in {y for _, y in tg} | {t[3]}:
                        work.append((y, dict(env)))
            elif t[0] == "call":
                if t[4] is None:
                    continue
                loc, path = self.place(fid, t[3], env)
                for v, e in self.call(fid, t, env):
                    if v[0] == "panic":
                        if v not in [x for x, _ in out]:
                            out.append((v, e))
                        continue
                    e = dict(e)
                    self.put(e, loc, path, v)
                    work.append((t[4], e))
            elif t[0] == "assert" and self.val(env, self.operand(fid, t[1], env)) == boolean(not t[2]):
                if ("panic",) not in [v for v, _ in out]:
                    out.append((("panic",), env))
            elif t[0] == "drop":
                work.append((t[2], self.dropped(fid, t[1], env)))
            elif t[0] in ("goto", "assert"):
                work.append(({"goto": t[1], "assert": t[3] if len(t) > 3 else None}[t[0]], env))
            else:
                pass  # unreachable, resume
        return out

    def dropped(self, fid, place, env):
        return env

    def solid(self, env, v, fid):
        """without references into the frame that ends"""
        if v[0] == "ref" and v[1][0] == fid:
            return self.solid(env, self.get(env, v[1], v[2]), fid)
        if v[0] == "agg":
            return ("agg", v[1], tuple((k, self.solid(env, x, fid)) for k, x in v[2]))
        return v

    def apply(self, f, args, env):
        f = self.val(env, f)
        if f[0] == "clo" and f[1] in self.F.fns:
            fn = self.F.fns[f[1]]
            return self.run(fn, [f] + args, env)
        if f[0] == "fn":
            return self.named(f[2], args, env)
        return [(TOP, env)]

    def call(self, fid, t, env):
        args = [self.operand(fid, a, env) for a in t[2]]
        if t[1][0] != "const":
            f = self.val(env, self.operand(fid, t[1], env))
            return self.apply(f, args, env)
        c = t[1][1]
        return self.named(c["fn"], args, env) if "fn" in c else [(TOP, env)]

    def named(self, c, args, env):
        path = strip_generics(c["path"])
        name = path.split("::")[-1]
        if c.get("ctor") or name in ("Some", "Ok", "Err") and not c.get("rid", "").startswith("indradb"):
            return [(agg(name, *args), env)]
        fn = self.F.fns.get(c.get("rid", c["id"])) or self.F.fns.get(c["id"])
        short = "::".join(path.split("::")[-2:])
        if fn is not None and fn.blocks and short not in self.keep:
            r = self.intercept(fn, args, [self.val(env, a) for a in args], env)
            if r is not None:
                return r
            if self.depth > 30:
                raise Stuck(fn.label())
            self.depth += 1
            try:
                return self.run(fn, args, env)
            finally:
                self.depth -= 1
        vs = [self.val(env, a) for a in args]
        r = self.model(path, name, short, args, vs, env, c)
        if r is None:
            self.unknown.add(path)
            return [(("sym", short, tuple(self.solidall(env, v) for v in vs)), env)]
        if isinstance(r, list):
            return r
        return [(r, env)]

    def decide(self, v, env):
        """the values a condition on unknown values can have: [(value, env)]"""
        return None

    def intercept(self, fn, args, vs, env):
        return None

    def solidall(self, env, v):
        if v[0] == "ref":
            return self.solidall(env, self.val(env, v))
        if v[0] == "agg":
            return ("agg", v[1], tuple((k, self.solidall(env, x)) for k, x in v[2]))
        return v

    def quant(self, it, f, env, want):
        """all (want=True) or any of the characters satisfying f"""
        ok, bad, seen = it[1], it[2], it[3]
        need = [bad] if bad is not None and not seen else []
        if it[0] == "empty":
            return [(boolean(want), env)]
        res = set()
        definite = None
        vals = []
        for c in [ok] + need:
            rs = {v for v, _ in self.apply(f, [("i", c)], env)}
            vals.append(rs)
        ok_r, bad_r = vals[0], vals[1] if need else None
        # some ok characters may or may not be there
        for o in ok_r:
            for b in bad_r or [None]:
                xs = [x for x in (o, b) if x is not None]
                if any(x not in (TRUE, FALSE) for x in xs):
                    res |= {TRUE, FALSE}
                elif want:
                    res.add(boolean(all(x == TRUE for x in xs)))
                else:
                    res.add(boolean(any(x == TRUE for x in xs)))
        return [(x, env) for x in res]

    def model(self, path, name, short, args, vs, env, c):
        v = vs[0] if vs else None
        tr = c.get("trait", "").split("::")[-1]
        if tr == "Try" and name == "branch" and v[0] == "agg":
            if v[1] in ("Ok", "Some"):
                return ("agg", "Continue", v[2])
            return agg("Break", v)
        if name == "from_residual" and v[0] == "agg":
            return v
        if tr == "Fn" or tr == "FnMut" or tr == "FnOnce":
            tup = self.val(env, args[1]) if len(args) > 1 else UNIT
            return self.apply(args[0], [x for _, x in tup[2]] if tup[0] == "agg" else list(args[1:]), env)
        if "option::Option" in path or "result::Result" in path:
            r = self.option(name, args, vs, env)
            if r is not None:
                return r
        if v is not None and v[0] in ("str", "lit"):
            if name == "len":
                return v[1] if v[0] == "str" else ("i", len(v[1].encode()))
            if name == "is_empty" and v[0] == "str":
                return boolean(v[1][1] == 0) if v[1][0] == "i" else TOP
            if name in ("chars",) and v[0] == "str":
                return ("iter", v[2], v[3], False)
            if name in ("char_indices",) and v[0] == "str":
                return ("ienum", ("iter", v[2], v[3], False))
            if name == "as_bytes":
                return v
            if name in ("bytes", "into_bytes") and v[0] == "str" and v[2] < 128 and (v[3] is None or v[3] < 128):
                return ("iter", v[2], v[3], False)
            if name == "contains" and v[0] == "str" and len(args) > 1:
                p = vs[1]
                if p[0] in ("clo", "fn"):
                    return self.quant(("iter", v[2], v[3], False), args[1], env, False)
                if p[0] == "i":
                    return boolean(p[1] == v[3]) if p[1] in (v[3],) or p[1] != v[2] else TOP
        if name in SAME and args:
            return args[0] if name in ("deref", "deref_mut", "as_mut", "by_ref", "borrow_mut", "as_ref") or args[0][0] != "ref" else v
        if v is not None and v[0] == "i" and (name.startswith("is_") and "char" in path):
            x = uni(v[1], name)
            return boolean(x) if x is not None else TOP
        if v is not None and v[0] == "i" and name.startswith("is_ascii"):
            x = uni(v[1], name)
            return boolean(x) if x is not None else TOP
        if v is not None and v[0] == "iter":
            if name == "all":
                return self.quant(v, args[1], env, True)
            if name == "any":
                return self.quant(v, args[1], env, False)
            if name == "count":
                return TOP
            if name == "filter":
                return ("ifilter", v, args[1])
            if name in ("find", "position", "rposition", "rfind"):
                return [(agg("None") if x == FALSE else agg("Some", TOP), e) for x, e in self.quant(v, args[1], env, False)]
            if name == "next":
                outs = []
                loc, p = args[0][1], args[0][2]
                while self.get(env, loc, p)[0] == "ref":
                    x = self.get(env, loc, p)
                    loc, p = x[1], x[2]
                outs.append((agg("Some", ("i", v[1])), dict(env)))
                if v[2] is not None and not v[3]:
                    e = dict(env)
                    self.put(e, loc, p, ("iter", v[1], v[2], True))
                    outs.append((agg("Some", ("i", v[2])), e))
                else:
                    outs.append((agg("None"), dict(env)))
                return outs
        if v is not None and v[0] == "ifilter":
            if name in ("count", "next", "peek", "last"):
                outs = []
                for x, e in self.quant(v[1], v[2], env, False):
                    if name == "count":
                        outs += [(FALSE, e)] if x == FALSE else [(("i", 1), e), (("i", 2), e), (("i", 1 << 20), e)]
                    else:
                        outs.append((agg("None") if x == FALSE else agg("Some", TOP), e))
                return outs
        if tr == "PartialEq" and name in ("eq", "ne") and len(vs) == 2 and vs[0][0] == vs[1][0] == "i":
            return boolean((vs[0][1] == vs[1][1]) == (name == "eq"))
        if tr == "PartialOrd" and len(vs) == 2 and vs[0][0] == vs[1][0] == "i":
            return boolean(BINS[name.capitalize()](vs[0][1], vs[1][1])) if name.capitalize() in BINS else TOP
        if name == "contains" and len(vs) == 2 and vs[1][0] == "i" and v[0] == "agg":
            f = dict(v[2])
            lo, hi = f.get("start", f.get("0", TOP)), f.get("end", f.get("1", TOP))
            lo, hi = self.val(env, lo), self.val(env, hi)
            if lo[0] == "i" and hi[0] == "i":
                return boolean(lo[1] <= vs[1][1] and (vs[1][1] <= hi[1] if "Inclusive" in path else vs[1][1] < hi[1]))
        if short == "RangeInclusive::new" and len(vs) == 2:
            return ("agg", "RangeInclusive", (("start", vs[0]), ("end", vs[1])))
        if name in ("drop", "forget"):
            return UNIT
        if name in ("then_some",) and v in (TRUE, FALSE):
            return agg("Some", args[1]) if v == TRUE else agg("None")
        if name in ("then",) and v in (TRUE, FALSE):
            return [(agg("Some", x), e) for x, e in self.apply(args[1], [], env)] if v == TRUE else agg("None")
        return None

    def option(self, name, args, vs, env):
        v = vs[0] if vs else None
        if v is None or v[0] != "agg":
            return None
        pos = v[1] in ("Some", "Ok")
        inner = v[2][0][1] if v[2] else UNIT
        if name in ("is_some", "is_ok"):
            return boolean(pos)
        if name in ("is_none", "is_err"):
            return boolean(not pos)
        if name in ("map",):
            return [(agg(v[1], x), e) for x, e in self.apply(args[1], [inner], env)] if pos else v
        if name in ("and_then",):
            return self.apply(args[1], [inner], env) if pos else v
        if name in ("map_err", "or_else"):
            if pos:
                return v
            return [(agg("Err", x) if name == "map_err" else x, e) for x, e in self.apply(args[1], [inner], env)]
        if name == "ok_or":
            return agg("Ok", inner) if pos else agg("Err", args[1])
        if name == "ok_or_else":
            return agg("Ok", inner) if pos else [(agg("Err", x), e) for x, e in self.apply(args[1], [], env)]
        if name in ("unwrap", "expect", "unwrap_unchecked"):
            return inner if pos else []
        if name == "unwrap_or":
            return inner if pos else args[1]
        if name == "ok":
            return agg("Some", inner) if pos else agg("None")
        none = v[1] == "None"
        if v[1] not in ("Some", "Ok", "None", "Err"):
            return None
        if name == "err":
            return agg("Some", inner) if not pos else agg("None")
        if name == "unwrap_or_else":
            return inner if pos else self.apply(args[1], [] if none else [inner], env)
        if name == "or_else":
            return self.apply(args[1], [], env)
        if name == "transpose":
            if none:
                return agg("Ok", v)
            if not pos:
                return agg("Some", v)
            x = self.val(env, inner)
            if x[0] != "agg" or not x[2] and x[1] != "None":
                return None
            if v[1] == "Some":
                return agg("Ok", agg("Some", x[2][0][1])) if x[1] == "Ok" else x
            return agg("Some", agg("Ok", x[2][0][1])) if x[1] == "Some" else x
        if name == "flatten":
            return inner if pos else v
        if name == "and":
            return args[1] if pos else v
        if name == "or":
            return v if pos else args[1]
        if name in ("inspect", "inspect_err"):
            return [(v, e) for _, e in self.apply(args[1], [inner], env)] if pos == (name == "inspect") else v
        if name == "is_none_or":
            return self.apply(args[1], [inner], env) if pos else boolean(True)
        if name in ("is_some_and", "is_ok_and"):
            return self.apply(args[1], [inner], env) if pos else boolean(False)
        if name == "is_err_and":
            return self.apply(args[1], [inner], env) if not pos else boolean(False)
        if name == "map_or":
            return self.apply(args[2], [inner], env) if pos else args[1]
        if name == "map_or_else":
            return self.apply(args[2], [inner], env) if pos else self.apply(args[1], [] if none else [inner], env)
        if name == "zip" and len(vs) > 1 and vs[1][0] == "agg":
            return agg("Some", agg("", inner, vs[1][2][0][1])) if pos and vs[1][2] else agg("None")
        return None
