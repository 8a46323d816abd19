"""Interprocedural provenance dataflow over MIR facts.

Every value is abstracted by a *provenance term*: which parameter, field, call
result, iteration element or literal it is, with ownership noise (references,
clones, boxing, Ok/Some wrapping, `?`, collecting, iterator plumbing)
normalised away.  Functions of the analysed workspace are inlined at their call
sites (context-sensitive), closures are applied where the standard library
applies them, loops are iterated to a fixpoint with widening.  The result is a
set of *events* (calls that were not inlined) with the terms of their
arguments, plus - from post-dominance - the branch outcomes each event depends
on.  Nothing is executed and no path is enumerated or handed to a solver.
"""
import re
from facts import strip_generics, head_ty

sys_setrecursion = __import__("sys").setrecursionlimit(20000)


# ------------------------------------------------------------------ terms
class T:
    __slots__ = ("op", "a", "h", "depth", "size")
    tab = {}

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o


def mk(op, *a):
    k = (op, a)
    t = T.tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.h = hash(k)
        d, s = 0, 1
        for x in a:
            if isinstance(x, T):
                d = max(d, x.depth)
                s += x.size
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        d = max(d, y.depth)
                        s += y.size
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                d = max(d, z.depth)
                                s += z.size
            elif isinstance(x, frozenset):
                for y in x:
                    if isinstance(y, T):
                        d = max(d, y.depth)
                        s += y.size
        t.depth = d + 1
        t.size = s
        T.tab[k] = t
    return t


def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


NONE = mk("none")
UNIT = mk("unit")
BOT = mk("bot")
TRUE = mk("c", "true")
FALSE = mk("c", "false")


def const(v):
    return mk("c", str(v))


def phi(ts):
    s = set()
    for t in ts:
        if t is None or t.op == "bot":
            continue
        if t.op == "phi":
            s |= t.a[0]
        else:
            s.add(t)
    if not s:
        return BOT
    if len(s) == 1:
        return next(iter(s))
    # the same closure made again with other captures
    cl = {}
    for x in s:
        if x.op == "closure" and x.a[1:] and isinstance(x.a[1], tuple):
            cl.setdefault((x.a[0], len(x.a[1])), []).append(x)
    for (i, n), l in cl.items():
        if len(l) > 1:
            s -= set(l)
            s.add(mk("closure", i, tuple(phi([x.a[1][j] for x in l]) for j in range(n))))
    if len(s) == 1:
        return next(iter(s))
    # merge collections of the same origin
    cs = [x for x in s if x.op == "coll"]
    if len(cs) > 1:
        rest = [x for x in s if x.op != "coll"]
        by = {}
        for c in cs:
            by.setdefault(c.a[0], []).append(c)
        m = []
        for tag, l in by.items():
            items = frozenset().union(*[c.a[1] for c in l])
            m.append(mk("coll", tag, items))
        return phi(rest + m) if len(m) < len(cs) else mk("phi", frozenset(s))
    if len(s) > 24:
        return mk("top", frozenset(roots_of(s)))
    return mk("phi", frozenset(s))


def roots_of(ts):
    r = set()
    for t in ts:
        for x in subterms(t):
            if x.op in ("param", "top"):
                r.add(x)
    return r


def is_phi(t):
    return t.op == "phi"


def members(t):
    if t.op == "phi":
        return list(t.a[0])
    if t.op == "ret":
        return members(t.a[1])
    return [t]


def dist(t, f):
    """distribute f over phi / wrappers"""
    if t.op == "phi":
        return phi([dist(x, f) for x in t.a[0]])
    if t.op == "ret":
        return dist(t.a[1], f)
    if t.op == "pushed":
        r = dist(t.a[0], f)
        return r if r.op in ("bot",) else mk("pushed", r, t.a[1])
    return f(t)


def short(p):
    s = p.split("::")
    return "::".join(s[-2:]) if len(s) >= 2 else p


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.a
    n = d + 1
    if o == "param":
        return a[0]
    if o == "field":
        return f"{show(a[0], n)}.{a[1].split('.')[-1]}"
    if o == "c":
        return repr(a[0])
    if o == "phi":
        return "{" + " | ".join(sorted(show(x, n) for x in a[0])) + "}"
    if o == "elem":
        return f"each({show(a[0], n)})"
    if o == "call":
        return f"{short(a[0])}({', '.join(show(x, n) for x in a[1])})"
    if o == "agg":
        return f"{short(a[0])}{'::' + a[1] if a[1] else ''}{{" + ", ".join(f"{k}: {show(v, n)}" for k, v in a[2]) + "}"
    if o == "pushed":
        return show(a[0], n)
    if o == "ret":
        return show(a[1], n)
    if o == "coll":
        return "[" + ", ".join(sorted(show(x, n) for x in a[1])) + "]"
    if o == "closure":
        return "closure " + a[0].split("::", 1)[-1]
    if o == "top":
        return "⊤"
    if o == "ref":
        return f"&local{a[0]}"
    return o + "(" + ", ".join(show(x, n) if isinstance(x, T) else (str(x) if not isinstance(x, (tuple, frozenset)) else "[" + ", ".join(show(y, n) if isinstance(y, T) else str(y) for y in x) + "]") for x in a) + ")"


def NEXT(it):
    return ("next", it)


def is_next(tg):
    return isinstance(tg, tuple) and len(tg) == 2 and tg[0] == "next"


OPT = {"Option", "Result", "ControlFlow", "Poll"}
POS = {"Some", "Ok", "Continue", "Ready"}
NEG = {"None", "Err", "Break", "Pending"}
PTRISH = ("std::boxed::", "std::ptr::", "std::pin::", "alloc::boxed", "core::ptr", "core::pin", "std::mem::ManuallyDrop",
          "std::mem::MaybeUninit")


def adt_last(p):
    return p.split("<")[0].split("::")[-1]


def field(v, name, adt, variant=None):
    al = adt_last(adt)
    if adt.startswith("closure:"):
        def g(x):
            if x.op == "closure":
                i = int(name) if name.isdigit() else -1
                return x.a[1][i] if 0 <= i < len(x.a[1]) else BOT
            return mk("field", x, "closure." + name)
        return dist(v, g)
    if al in OPT and variant:
        if variant in POS:
            if v.op == "phi" and any(x.op == "pushed" and is_next(x.a[1]) for x in v.a[0]):
                return phi([field(x, name, adt, variant) for x in v.a[0]])
            if v.op == "pushed" and is_next(v.a[1]):
                return v.a[0]

            if al == "Poll":
                return v

            def g(x):
                if x.op == "none" or x.op == "err" and al != "Option":
                    return BOT
                if x.op == "try":
                    return field(x.a[1], "0", x.a[0], "Some")
                return x.a[0] if x.op == "okay" else x
            return dist(v, g) if v.op in ("phi", "none", "err", "try", "ret", "pushed", "okay") else v
        def g(x):
            if x.op == "try":
                return field(x.a[1], "0", x.a[0], "Err")
            if x.op == "err":
                return x
            if x.op in ("none", "unit", "c", "agg", "coll", "okay"):
                return BOT
            return mk("err", x)
        r = dist(v, g)
        return r
    if any(adt.startswith(p) for p in PTRISH):
        return v
    key = f"{al}{'::' + variant if variant else ''}.{name}" if adt != "tuple" else "." + name

    def g(x):
        if x.op == "agg":
            if x.a[1] and variant and x.a[1] != variant:
                return BOT
            for k, val in x.a[2]:
                if k == name:
                    return val
            return mk("field", x, key)
        if x.op == "with":
            for k, val in x.a[1]:
                if k == name:
                    return val
            return g2(x.a[0])
        if x.op in ("none", "err", "bot"):
            return BOT
        if x.op == "top":
            return x
        return mk("field", x, key)

    def g2(x):
        return dist(x, g)
    return g2(v)


def eta(adt, variant, fields):
    """S{a: x.a, b: x.b} -> x for structs"""
    if not fields or variant and variant != adt_last(adt):
        return None
    al = adt_last(adt)
    base = None
    for k, v in fields:
        key = f"{al}.{k}" if adt != "tuple" else "." + k
        if v.op == "pushed":
            v = v.a[0]
        if v.op != "field" or v.a[1] != key:
            return None
        if base is None:
            base = v.a[0]
        elif base is not v.a[0]:
            return None
    return base


def mkerr(v):
    """Err(v), where v may be an error already on some paths"""
    if v.op == "err":
        return v
    if v.op == "phi" and any(m.op == "err" for m in v.a[0]):
        rest = [m for m in v.a[0] if m.op != "err"]
        return phi([m for m in v.a[0] if m.op == "err"] + ([mk("err", phi(rest))] if rest else []))
    return mk("err", v)


def tag(t, tg):
    return t if t.op == "bot" else mk("pushed", t, tg)


def elem(t):
    def g(x):
        if x.op == "coll":
            return phi(x.a[1])
        if x.op == "agg" and x.a[0] == "array":
            return phi([v for _, v in x.a[2]])
        if x.op == "map":
            return x.a[1]
        if x.op == "fmap":
            return tag(field(x.a[1], "0", "Option", "Some"), ("fmapw" if len(x.a) > 3 else "fmap", x.a[2]))
        if x.op == "filter":
            return tag(elem(x.a[0]), ("filter", x.a[2]))
        if x.op in ("takewhile", "skipwhile"):
            return tag(elem(x.a[0]), (x.op, x.a[2]))
        if x.op in ("take", "skip"):
            return tag(elem(x.a[0]), (x.op, x.a[1], x.a[0]))
        if x.op in ("rev", "peek", "copy"):
            return elem(x.a[0])
        if x.op == "chain":
            return phi([tag(elem(y), ("alt", x, i)) for i, y in enumerate(x.a)])
        if x.op == "zip":
            return mk("agg", "tuple", "", (("0", elem(x.a[0])), ("1", elem(x.a[1]))))
        if x.op == "enumerate":
            return mk("agg", "tuple", "", (("0", mk("index", x.a[0])), ("1", elem(x.a[0]))))
        if x.op == "keys":
            return field(elem(x.a[0]), "0", "tuple")
        if x.op == "values":
            return field(elem(x.a[0]), "1", "tuple")
        if x.op == "flat":
            return elem(elem(x.a[0]))
        if x.op == "optit":
            return field(x.a[0], "0", "Option", "Some")
        if x.op in ("none", "err", "bot", "top"):
            return BOT if x.op != "top" else x
        return mk("elem", x)
    return dist(t, g)


# ------------------------------------------------------------------ call models
TRANSPARENT = {
    "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "clone", "cloned", "copied", "to_owned", "into",
    "unwrap", "expect", "into_iter", "iter", "iter_mut", "collect", "by_ref", "as_slice", "as_mut_slice", "as_str",
    "to_vec", "into_vec", "into_boxed_slice", "into_future", "as_deref", "as_deref_mut", "unwrap_unchecked", "from_output",
    "new_unchecked", "into_inner", "drain", "ok", "as_path", "to_path_buf", "as_bytes", "into_bytes", "into_boxed_str",
    "into_string", "as_os_str", "fuse", "into_iter_sorted", "ok_or", "transpose", "get_mut_unchecked", "as_mut_vec", "into_keys_",
    "get_ref", "unwrap_or_default", "flatten_ok", "poll", "as_pin_mut", "box_new", "into_pin", "leak", "from_raw", "into_raw",
    "as_ptr", "to_string_lossy", "must_use", "black_box", "read_volatile", "identity", "forget_", "take_", "to_string", "as_any",
    "as_file", "path_", "lock", "read", "write_guard", "try_into_", "copy_from_", "as_mut_ptr", "try_branch", "into_output",
}
# functions whose result is a view of their first argument, by path suffix
VIEW_SUFFIX = (
    "Box::new", "Box::pin", "Pin::new", "Rc::new", "Arc::new", "Mutex::new", "RwLock::new", "Some", "Ok", "Cow::Borrowed",
    "Cow::Owned", "Mutex::lock", "RwLock::read", "RwLock::write", "PathBuf::from", "String::from", "Box::from", "Arc::from",
    "Response::new", "Request::new", "BufReader::new", "BufWriter::new", "MutexGuard::map", "Cell::new", "RefCell::new", "ManuallyDrop::new",
)
NO_INLINE_TRAITS = {"Clone", "PartialEq", "Eq", "Hash", "Ord", "PartialOrd", "Default", "Debug", "Display", "Serialize", "Deserialize", "Drop",
                    "Error", "Hasher"}
COLL_NEW = {"new", "default", "with_capacity"}
COLL_TY = re.compile(r"(Vec|VecDeque|HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap|String)$")
MAP_TY = re.compile(r"(HashMap|HashSet|BTreeMap|BTreeSet)$")
# functions that run their closure exactly once
SURELY = {"call", "await", "fnptr", "spawn_blocking", "spawn", "spawn_local", "block_in_place", "block_on", "catch_unwind", "call_once", "with"}
SET_TYPES = {"HashSet", "BTreeSet", "HashMap", "BTreeMap"}
ADD = {"push", "push_back", "push_front", "insert", "append", "extend", "extend_from_slice", "push_str"}


class Event:
    __slots__ = ("id", "fid", "block", "path", "name", "self_ty", "args", "raw", "line", "fn", "ret", "rid", "iter", "dbg", "order", "targs", "destty")

    def __repr__(self):
        return f"{self.fn.label()}:{self.line} {short(self.path)}({', '.join(show(a) for a in self.args)})"


class Frame:
    __slots__ = ("id", "fn", "parent", "site", "hof", "sw", "rets", "retw", "visits", "hofiter")

    def chain(self):
        f = self
        while f is not None:
            yield f
            f = f.parent


BITS = {"bool": 1, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "char": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}


def loses(frm, to):
    """whether a cast between these types changes some values"""
    if frm not in BITS or to not in BITS:
        return True
    s, t = frm[0] == "i", to[0] == "i"
    return BITS[frm] > BITS[to] or s != t and (s or BITS[frm] >= BITS[to])


class Analysis:
    def __init__(self, facts, opaque=(), assume=None, inline=None, max_visits=40000, bind=None, join=None):
        self.tohash = set()
        self.hashed = []  # walks over a hash set or map made within the function
        self.sets = False  # whether a set that is walked counts as another list than the one it was made from
        self.joins = join  # how spawned tasks end: "ok", "fail" (cancelled or panicked) or None for either
        self.bind = bind or {}
        self.F = facts
        self.opaque = set(opaque)
        self.assume = assume or []
        self.events = {}
        self.frames = {}
        self.fids = {}
        self.stack = []
        self.consts = {}
        self.budget = max_visits
        self.seq = 0
        self.problems = []
        self.noinline = inline

    # -------------------------------------------------------------- frames
    def frame(self, fn, parent, site, hof=None, hofiter=None):
        key = (fn.id, parent.id if parent else None, site)
        if key in self.fids:
            fr = self.frames[self.fids[key]]
            if hofiter is not None:
                fr.hofiter = hofiter
            return fr
        fr = Frame()
        fr.id = len(self.frames)
        fr.fn = fn
        fr.parent = parent
        fr.site = site
        fr.hof = hof
        fr.hofiter = hofiter
        fr.sw = {}
        fr.rets = {}
        fr.retw = {}
        fr.visits = {}
        self.fids[key] = fr.id
        self.frames[fr.id] = fr
        return fr

    # -------------------------------------------------------------- entry
    def run(self, fn, params):
        """params: {index(1-based) or debug name: term}"""
        fr = self.frame(fn, None, None)
        st = {}
        names = {n: i for i, (_, n) in enumerate(fn.locals) if n}
        for i in range(1, fn.nargs + 1):
            nm = fn.locals[i][1] or f"arg{i}"
            v = params.get(i)
            if v is None:
                v = params.get(nm)
            if v is None:
                v = mk("param", nm)
            st[(fr.id, i)] = v
        r, st = self.exec(fr, st)
        return self.resolve(r, st)

    def run_async(self, fn, params):
        """like run, with the future the function returns awaited (async fn / #[async_trait])"""
        fr = self.frame(fn, None, None)
        st = {}
        for i in range(1, fn.nargs + 1):
            nm = fn.locals[i][1] or f"arg{i}"
            v = params.get(i)
            st[(fr.id, i)] = v if v is not None else mk("param", nm)
        r, st = self.exec(fr, st)
        v = r
        while v.op in ("ref", "pushed", "ret"):
            v = self.deref(v, st) if v.op == "ref" else v.a[1] if v.op == "ret" else v.a[0]
        co = self.F.fns.get(v.a[0]) if v.op == "closure" else None
        if co is None or not co.coroutine:
            return self.resolve(r, st)
        end = next((i for i, b in enumerate(fn.blocks) if b["t"][0] == "return"), 0)
        sf = self.frame(co, fr, (end, "co"), hof="await", hofiter=None)
        st[(sf.id, 1)] = v
        st[(sf.id, 2)] = mk("resume")
        self.stack.append(co)
        r, rst = self.exec(sf, st)
        self.stack.pop()
        return self.resolve(r, rst)

    # -------------------------------------------------------------- places
    def lval(self, fr, place, st):
        """('L', loc, path) or ('V', term)"""
        loc, path = (fr.id, place[0]), ()
        cur = None
        variant = None
        for e in place[1]:
            if cur is None:
                if e[0] == "d":
                    v = self.readloc(loc, path, st)
                    if v.op == "ref":
                        loc, path = v.a[0], v.a[1]
                    else:
                        if v.op == "pushed" and v.a[0].op == "ref":
                            loc, path = v.a[0].a[0], v.a[0].a[1]
                        else:
                            cur = self.deref(v, st)
                elif e[0] == "f":
                    path = path + ((e[2] if not e[3].startswith("closure:") else str(e[1]), e[3], variant),)
                    variant = None
                elif e[0] == "v":
                    variant = e[2]
                else:
                    cur = elem(self.readloc(loc, path, st))
            else:
                if e[0] == "d":
                    if cur.op == "ref":
                        loc, path = cur.a[0], cur.a[1]
                        cur = None
                    else:
                        cur = self.deref(cur, st)
                elif e[0] == "f":
                    cur = field(cur, e[2] if not e[3].startswith("closure:") else str(e[1]), e[3], variant)
                    variant = None
                elif e[0] == "v":
                    variant = e[2]
                else:
                    cur = elem(cur)
        if cur is None:
            return ("L", loc, path, variant)
        return ("V", cur)

    def deref(self, v, st):
        def g(x):
            if x.op == "ref":
                return self.readloc(x.a[0], x.a[1], st)
            return x
        if v.op in ("phi", "ref", "ret"):
            return dist(v, g)
        return v

    def readloc(self, loc, path, st):
        v = st.get(loc, BOT)
        for name, adt, variant in path:
            if v.op == "ref":
                v = self.readloc(v.a[0], v.a[1], st)
            v = field(v, name, adt, variant)
        return v

    def readplace(self, fr, place, st):
        l = self.lval(fr, place, st)
        if l[0] == "V":
            return l[1]
        return self.readloc(l[1], l[2], st)

    def writeloc(self, loc, path, val, st, weak=False):
        if not path:
            st[loc] = phi([st.get(loc, BOT), val]) if weak else val
            return
        base = st.get(loc, BOT)
        st[loc] = self.update(base, path, val, st)

    def update(self, base, path, val, st):
        if not path:
            return val
        name, adt, variant = path[0]
        if base.op == "ref":
            self.writeloc(base.a[0], base.a[1] + path, val, st)
            return base
        if adt_last(adt) in OPT or any(adt.startswith(p) for p in PTRISH):
            return self.update(base, path[1:], val, st) if len(path) > 1 else val
        if base.op == "bot":
            return mk("agg", adt if adt != "tuple" else "tuple", variant or "", ((name, self.update(BOT, path[1:], val, st)),))
        if base.op == "agg":
            fs = dict(base.a[2])
            fs[name] = self.update(fs.get(name, BOT), path[1:], val, st)
            return mk("agg", base.a[0], base.a[1], tuple(fs.items()))
        if base.op == "closure":
            fs = list(base.a[1])
            i = int(name) if name.isdigit() else -1
            if 0 <= i < len(fs):
                fs[i] = self.update(fs[i], path[1:], val, st)
            return mk("closure", base.a[0], tuple(fs))
        if base.op == "with":
            fs = dict(base.a[1])
            fs[name] = self.update(fs.get(name, field(base.a[0], name, adt, variant)), path[1:], val, st)
            return mk("with", base.a[0], tuple(fs.items()))
        if base.op in ("phi",):
            return dist(base, lambda x: self.update(x, path, val, st))
        return mk("with", base, ((name, self.update(field(base, name, adt, variant), path[1:], val, st)),))

    # -------------------------------------------------------------- operands
    def operand(self, fr, o, st):
        if o[0] in ("copy", "move"):
            return self.readplace(fr, o[1], st)
        c = o[1]
        if "fn" in c:
            return mk("fn", self.callee_key(c["fn"]))
        if "promoted" in c:
            pid = f"{re.sub(r'#p[0-9]+$', '', fr.fn.id)}#p{c['promoted']}"
            return self.constbody(pid, fr)
        if "str" in c:
            return mk("c", c["str"])
        if "int" in c:
            if c["ty"] == "bool":
                return TRUE if c["int"] == "1" else FALSE
            return mk("c", c["int"])
        if "closure" in c:
            return mk("closure", c["closure"], ())
        if "def" in c:
            f = self.F.fns.get(c["def"])
            if f is not None:
                return self.constbody(c["def"], fr)
            return mk("named", strip_generics(c["defpath"]))
        if "static" in c:
            return mk("named", c["static"])
        if c["ty"] == "()":
            return UNIT
        if c.get("zst"):
            return mk("zst", head_ty(c["ty"]))
        return mk("c", c.get("dbg", "?"))

    def constbody(self, fid, fr):
        if fid in self.consts:
            return self.consts[fid]
        f = self.F.fns.get(fid)
        if f is None:
            return mk("named", fid)
        self.consts[fid] = mk("named", fid)
        sub = Analysis(self.F, self.opaque)
        sub.consts = self.consts
        try:
            r = sub.run(f, {})
        except RecursionError:
            r = mk("named", fid)
        # the promoted's own refs are resolved
        self.consts[fid] = r
        return r

    def callee_key(self, c):
        return (strip_generics(c["path"]), c.get("rid", c["id"]), c["id"])

    def resolve(self, t, st, depth=0):
        """replace references to locals by their current contents"""
        memo = {}

        def go(x, d):
            if x in memo:
                return memo[x]
            if d > 60:
                return x
            memo[x] = x
            if x.op == "ref":
                r = go(self.readloc(x.a[0], x.a[1], st), d + 1)
            elif not any(y.op == "ref" for y in subterms(x)):
                r = x
            elif x.op == "phi":
                r = phi([go(y, d + 1) for y in x.a[0]])
            elif x.op == "pushed":
                r = mk("pushed", go(x.a[0], d + 1), x.a[1])
            elif x.op == "agg":
                r = mk("agg", x.a[0], x.a[1], tuple((k, go(v, d + 1)) for k, v in x.a[2]))
                e = eta(r.a[0], r.a[1], r.a[2])
                r = e if e is not None else r
            elif x.op == "field":
                b = go(x.a[0], d + 1)
                r = mk("field", b, x.a[1])
            else:
                na = []
                for y in x.a:
                    if isinstance(y, T):
                        na.append(go(y, d + 1))
                    elif isinstance(y, tuple):
                        na.append(tuple(go(z, d + 1) if isinstance(z, T) else z for z in y))
                    elif isinstance(y, frozenset):
                        na.append(frozenset(go(z, d + 1) if isinstance(z, T) else z for z in y))
                    else:
                        na.append(y)
                r = mk(x.op, *na)
            memo[x] = r
            return r
        return go(t, 0)

    # -------------------------------------------------------------- rvalues
    def rvalue(self, fr, r, st, loc):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1], st)
        if k == "ref":
            l = self.lval(fr, r[2], st)
            if l[0] == "V":
                return l[1]
            # a reference to a transparent reference-holder place
            v = self.readloc(l[1], l[2], st)
            if v.op == "ref" and not r[1]:
                return v
            if l[3] and not l[2]:
                return mk("ref", l[1], l[2])
            return mk("ref", l[1], l[2])
        if k == "cast" and r[1] == "BoxDerefTransmute" and r[2][0] in ("copy", "move") and r[2][1][1]:
            return self.operand(fr, [r[2][0], [r[2][1][0], []]], st)
        if k == "cast":
            v = self.operand(fr, r[2], st)
            if r[1] in ("IntToInt", "FloatToInt", "IntToFloat") and len(r) > 4 and loses(r[4], r[3]):
                x = self.resolve(v, st)
                if not (x.op == "c" and str(x.a[0]).isdigit() and r[3] in BITS and int(x.a[0]) < 1 << BITS[r[3]] - (r[3][0] == "i")) and x.op not in ("discr", "ctr"):
                    return mk("un", "as " + r[3], v)
            return v
        if k == "bin":
            a, b = self.resolve(self.operand(fr, r[2], st), st), self.resolve(self.operand(fr, r[3], st), st)
            op = r[1].replace("WithOverflow", "").replace("Unchecked", "")
            if op == "Add" and b.op == "c" and b.a[0] == "1" and all(x.op == "c" and x.a[0] == "0" or x.op == "ctr" for x in members(strip_def(a))):
                # n += 1 on a counter that starts at 0: the number of times this place is passed
                ctr = mk("ctr", loc[0], loc[1])
                return mk("agg", "tuple", "", (("0", ctr), ("1", mk("overflow", op, ctr, b)))) if r[1].endswith("WithOverflow") else ctr
            if r[1].endswith("WithOverflow"):
                return mk("agg", "tuple", "", (("0", mk("bin", op, a, b)), ("1", mk("overflow", op, a, b))))
            if op in ("Eq", "Ne", "BitXor", "BitAnd", "BitOr") and any(self.is_bool(fr, x) for x in (r[2], r[3])):
                return mk("un", "Not", mk("bin", "bEq", a, b)) if op in ("Ne", "BitXor") else mk("bin", "b" + op.replace("Bit", ""), a, b)
            return mk("bin", op, a, b)
        if k == "un":
            v = self.operand(fr, r[2], st)
            if v is TRUE and r[1] == "Not":
                return FALSE
            if v is FALSE and r[1] == "Not":
                return TRUE
            if r[1] == "Not" and any(m.op == "pushed" and m.a[1][0] == "def" for m in members(v)):
                return dist(v, lambda x: TRUE if x is FALSE else FALSE if x is TRUE else mk("un", "Not", x))
            if r[1] == "PtrMetadata":
                return mk("call", "len", (self.resolve(v, st),))
            return mk("un", r[1], v)
        if k == "discr":
            v = self.readplace(fr, r[1], st)
            return mk("discr", self.resolve(v, st) if v.op == "ref" else v, r[2], tuple((n, dv) for _, n, dv in r[3]))
        if k == "agg":
            ops = [self.operand(fr, o, st) for o in r[5]]
            if r[1] == "closure":
                return mk("closure", r[2], tuple(ops))
            if r[1] == "adt":
                al = adt_last(r[2])
                if al in OPT and r[2].startswith(("std::", "core::")):
                    if r[3] in POS:
                        return ops[0] if ops else UNIT
                    if r[3] in ("None", "Pending"):
                        return NONE
                    if r[3] == "Break":
                        return ops[0] if ops else NONE
                    v = ops[0] if ops else UNIT
                    return mkerr(v)
                if any(r[2].startswith(p) for p in PTRISH) and ops:
                    return ops[0]
                var = r[3] if r[3] != al else ""
                fs = tuple(zip(r[4], ops))
                if r[2] in self.F.adts and self.F.adts[r[2]]["enum"]:
                    var = r[3]
                e = eta(r[2], var, fs)
                if e is not None:
                    return e
                return mk("agg", r[2], var, fs)
            if r[1] == "tuple":
                if not ops:
                    return UNIT
                fs = tuple((str(i), v) for i, v in enumerate(ops))
                e = eta("tuple", "", fs)
                return e if e is not None else mk("agg", "tuple", "", fs)
            if r[1] == "array":
                return mk("agg", "array", "", tuple((str(i), v) for i, v in enumerate(ops)))
            return mk("agg", r[1], "", tuple((str(i), v) for i, v in enumerate(ops)))
        if k == "repeat":
            return mk("repeat", self.operand(fr, r[1], st), r[2])
        return mk("unk", k)

    # -------------------------------------------------------------- execution
    def exec(self, fr, st):
        fn = fr.fn
        succ = fn.cfg()
        order = rpo(fn)
        pos = {b: i for i, b in enumerate(order)}
        instates = {0: st}
        work = {0}
        ret, rst = BOT, None
        fr.visits = {}
        fr.retw = {}
        while work:
            b = min(work, key=lambda x: pos[x])
            work.discard(b)
            n = fr.visits.get(b, 0) + 1
            fr.visits[b] = n
            self.budget -= 1
            if self.budget < 0:
                raise Budget(fn.label())
            s = dict(instates[b])
            outs = self.block(fr, b, s)
            t = fn.blocks[b]["t"]
            if t[0] == "return":
                v = s.get((fr.id, 0), BOT)
                ret = phi([ret, UNIT if v.op == "bot" and fn.locals[0][0] == "()" else v])
                rst = s if rst is None else self.join(rst, s)
                continue
            for tgt, os in outs:
                if tgt not in instates:
                    instates[tgt] = os
                    work.add(tgt)
                else:
                    j, ch = self.join_ch(instates[tgt], os, widen=fr.visits.get(tgt, 0) > 5)
                    if ch:
                        instates[tgt] = j
                        work.add(tgt)
        if rst is None:
            rst = st
            ret = BOT
        return ret, rst

    def join(self, a, b):
        return self.join_ch(a, b)[0]

    def join_ch(self, a, b, widen=False):
        ch = False
        r = None
        for k, v in b.items():
            o = a.get(k)
            if o is v:
                continue
            if o is None:
                nv = v
            else:
                nv = phi([o, v])
                if nv is o:
                    continue
                if widen or nv.depth > 120 or nv.size > 400000:
                    if o.op == "top":
                        continue
                    nv = mk("top", frozenset(roots_of([nv])))
                    if nv is o:
                        continue
            if r is None:
                r = dict(a)
            r[k] = nv
            ch = True
        return (r if r is not None else a), ch

    def block(self, fr, b, st):
        fn = fr.fn
        blk = fn.blocks[b]
        for si, s in enumerate(blk["s"]):
            if s[0] == "=":
                v = self.rvalue(fr, s[2], st, (fr.id, b, si))
                self.assign(fr, b, s[1], v, st, s[3], si)
            elif s[0] == "sd":
                pass
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "switch":
            return self.switch(fr, b, t, st)
        if k in ("drop",):
            return [(t[2], st)]
        if k == "assert":
            return [(t[3], st)]
        if k == "yield":
            self.writelocplace(fr, t[3], mk("resume"), st)
            return [(t[2], st)]
        if k == "call":
            r = self.call(fr, b, t, st)
            if t[4] is None or r is None:
                return []
            self.assign(fr, b, t[3], r, st, t[6], "t")
            return [(t[4], st)]
        return []

    def assign(self, fr, b, place, v, st, line, si):
        if place[0] == 0 and not place[1]:
            # remember the assignment of the return value, for error-exit pruning
            fr.retw[b] = v
        elif not place[1] and place[0] in multibool(fr.fn):
            # a flag with several assignments: remember which one reaches a use
            v = mk("pushed", v, ("def", fr.id, b, place[0]))
        l = self.lval(fr, place, st)
        if l[0] == "L":
            self.writeloc(l[1], l[2], v, st)
        else:
            # store through a non-local place: an effect
            if v.op == "unit":
                return
            self.emit(fr, b, "store", "store", "", [l[1], self.resolve(v, st)], line, None, si)

    def writelocplace(self, fr, place, v, st):
        l = self.lval(fr, place, st)
        if l[0] == "L":
            self.writeloc(l[1], l[2], v, st)

    def switch(self, fr, b, t, st):
        v = self.operand(fr, t[1], st)
        v = self.resolve(v, st)
        fr.sw[b] = (v, t)
        outs = []
        taken = self.feasible(v, t)
        for tgt in taken:
            outs.append((tgt, dict(st)))
        return outs

    def feasible(self, v, t):
        """targets that can be taken"""
        table = [(x[0], x[1]) for x in t[2]]
        other = t[3]
        alltg = [x[1] for x in table] + [other]
        if v.op == "discr":
            lab = self.labels(v)
            poss = set()
            known = True
            for m in members(v.a[0]):
                p = self.possible(m, v)
                if p is None:
                    known = False
                    break
                poss |= p
            if known:
                val2 = {n: dv for n, dv in v.a[2]}
                tg = []
                for n in poss:
                    dv = val2.get(n)
                    hit = [x[1] for x in table if x[0] == dv]
                    tg.append(hit[0] if hit else other)
                return dedupe(tg)
            return dedupe(alltg)
        while v.op == "pushed" and v.a[1][0] == "def":
            v = v.a[0]
        if v.op == "c" and v.a[0] in ("true", "false") or v.op == "c" and v.a[0].lstrip("-").isdigit():
            val = {"true": "1", "false": "0"}.get(v.a[0], v.a[0])
            hit = [x[1] for x in table if x[0] == val]
            return [hit[0] if hit else other]
        if t[4] == "bool":
            p = self.truth(v)
            if p is not None:
                hit = [x[1] for x in table if x[0] == p]
                return [hit[0] if hit else other]
        return dedupe(alltg)

    def truth(self, v):
        """the value of a boolean, as far as it is known: "1", "0" or None"""
        while v.op == "pushed" and v.a[1][0] == "def":
            v = v.a[0]
        if v.op == "c":
            return {"true": "1", "false": "0"}.get(v.a[0])
        p = self.presence(v)
        if p is not None:
            return p
        g = bool_norm(v)
        for (term, lab) in self.assume:
            if g is not None and isinstance(lab, str) and (g[0] is term or callable(term) and term(g[0])):
                return "1" if (lab == "Y") == g[1] else "0"
        return None

    def when(self, src, some):
        """bool::then: `some` if src holds, None otherwise"""
        k = self.truth(src)
        if k is not None:
            return some if k == "1" else NONE
        return phi([tag(some, ("opt", src, "B", True)), tag(NONE, ("opt", src, "B", False))])

    def presence(self, v):
        """is_some() and the like of a value whose variant is assumed: "1", "0" or None"""
        pol = True
        while v.op in ("pushed", "un") and (v.op == "pushed" or v.a[0] == "Not"):
            pol = pol if v.op == "pushed" else not pol
            v = v.a[0] if v.op == "pushed" else v.a[1]
        if v.op == "call" and len(v.a[1]) == 1 and v.a[0].split("::")[-1] in ("is_some", "is_none"):
            n = v.a[0].split("::")[-1]
            for (term, labs) in self.assume:
                if v.a[1][0] is term and labs in ({"Some"}, {"None"}):
                    return "1" if ((labs == {"Some"}) == (n == "is_some")) == pol else "0"
            if all(m.op == "none" for m in members(v.a[1][0])):
                return "1" if (n == "is_none") == pol else "0"
        return None

    def known(self, src, kind="O"):
        """is the option or result there, as far as it is known: True, False or None"""
        opts = (("Some", "1"), ("None", "0")) if kind == "O" else (("Ok", "0"), ("Err", "1"))
        r = set()
        for m in members(src):
            p = self.possible(m, mk("discr", m, "std::option::Option" if kind == "O" else "std::result::Result", opts))
            if p is None:
                return None
            r |= p
        return True if r and r <= POS else False if r and not r & POS else None

    def orelse(self, src, kind, some, other):
        """`some` if src is there, `other` otherwise"""
        k = self.known(src, kind)
        if k is not None:
            return some if k else other
        return phi([tag(some, ("opt", src, kind, True)), tag(other, ("opt", src, kind, False))])

    def is_bool(self, fr, o):
        if o[0] == "const":
            return len(o) > 1 and isinstance(o[1], dict) and o[1].get("ty") == "bool"
        l, proj = o[1]
        return not proj and fr.fn.locals[l][0] == "bool"

    def labels(self, v):
        return {n: dv for n, dv in v.a[2]}

    def possible(self, m, v):
        """set of variant names the discriminant of member term m can have, or None"""
        adt = adt_last(v.a[1])
        if adt == "Poll":
            return {"Ready"}  # waiting is not observable
        while m.op == "pushed":
            if is_next(m.a[1]):
                return None
            m = m.a[0]
        if m.op == "phi":
            r = set()
            for y in m.a[0]:
                p = self.possible(y, v)
                if p is None:
                    return None
                r |= p
            return r
        for (term, labs) in self.assume:
            if not isinstance(labs, str) and (m is term or callable(term) and term(m)):
                if any(n in labs for n, _ in v.a[2]):
                    return set(labs) & {n for n, _ in v.a[2]}
        if m.op == "try":
            r = set()
            for y in members(m.a[1]):
                p = self.possible(y, mk("discr", y, m.a[0], (("Some", "1"), ("None", "0")) if m.a[0] == "Option" else (("Ok", "0"), ("Err", "1"))))
                if p is None:
                    return None
                r |= {"Continue" if x in POS else "Break" for x in p}
            return r
        if adt in OPT and v.a[1].startswith(("std::", "core::")) or adt in OPT and "::" not in v.a[1]:
            names = {n for n, _ in v.a[2]}
            if m.op == "none":
                return names & {"None", "Pending"} or ({"Ok"} & names if "Ok" in names else None)
            if m.op == "err":
                return names & {"Err", "Break"} or None
            if m.op in ("unit", "coll", "closure", "okay") or m.op == "agg" and m.a[0] not in ():
                return names & POS
            if m.op == "c":
                return names & POS
            return None
        if m.op == "agg" and adt_last(m.a[0]) == adt and m.a[1]:
            return {m.a[1]}
        return None

    # -------------------------------------------------------------- calls
    def emit(self, fr, b, path, name, self_ty, args, line, rid, sub=0, it=None, targs=(), destty=""):
        key = (fr.id, b, sub)
        e = self.events.get(key)
        if e is None:
            e = Event()
            e.id = key
            self.seq += 1
            e.order = self.seq
            self.events[key] = e
        e.fid = fr.id
        e.block = b
        e.path = path
        e.name = name
        e.self_ty = self_ty
        e.args = args
        e.line = line
        e.fn = fr.fn
        e.rid = rid
        e.iter = it
        e.targs = targs
        e.ret = None
        e.destty = destty
        return e

    def should_inline(self, f, c):
        if f.kind not in ("fn", "closure", "coroutine"):
            return False
        if f.trait in NO_INLINE_TRAITS and f.kind == "fn" and not (f.trait == "Default" and f.crate == "indradb_proto" and f.from_expansion):
            return False
        if f.trait == "Clone":
            return False
        p = f.path
        for o in self.opaque:
            if p == o or p.endswith("::" + o):
                return False
        if f.self_ty and f.name and (f.self_ty + "::" + f.name) in self.opaque:
            return False
        if f.trait and (f.trait + "::" + f.name) in self.opaque:
            return False
        if any(x.id == f.id for x in self.stack):
            return False
        if len(self.stack) > 40:
            return False
        return True

    def call(self, fr, b, t, st):
        fo = t[1]
        args = [self.operand(fr, a, st) for a in t[2]]
        line = t[6]
        if fo[0] == "const" and "fn" in fo[1]:
            c = fo[1]["fn"]
            return self.docall(fr, b, c, args, st, line, t)
        # call through a function value
        v = self.resolve(self.operand(fr, fo, st), st)
        if v.op in ("closure", "fn"):
            return self.apply(fr, b, v, args, st, line, "fnptr", None)
        self.emit(fr, b, "fnptr", "fnptr", "", [v] + [self.resolve(a, st) for a in args], line, None)
        return mk("call", "fnptr", (v,) + tuple(self.resolve(a, st) for a in args))

    def apply(self, fr, b, f, args, st, line, how, it, sub=""):
        """apply a closure / fn item value to argument terms"""
        f0 = f
        f = self.deref(f, st)
        while f.op == "ref":
            f = self.deref(f, st)
        if f.op == "phi":
            return phi([self.apply(fr, b, x, args, st, line, how, it, sub + f"/{i}") for i, x in enumerate(sorted(f.a[0], key=lambda z: show(z)))])
        if f.op == "pushed":
            return self.apply(fr, b, f.a[0], args, st, line, how, it, sub)
        if f.op == "closure":
            fn = self.F.fns.get(f.a[0])
            if fn is None:
                return mk("call", "?closure", tuple(args))
            if any(x.id == fn.id for x in self.stack):
                return mk("call", "rec:" + fn.id, tuple(self.resolve(a, st) for a in args))
            sf = self.frame(fn, fr, (b, sub), hof=how, hofiter=it)
            # environments captured by mutable reference flow through `ref` terms
            env_loc = (sf.id, 1)
            st[env_loc] = f
            for i, a in enumerate(args):
                st[(sf.id, i + 2)] = a
            self.stack.append(fn)
            r, rst = self.exec(sf, st)
            self.stack.pop()
            if how in SURELY or how.split("::")[-1] in SURELY:
                self.absorb(st, rst, sf)
            else:
                self.absorb_maybe(st, rst, sf)
            return self.wrap_ret(sf, self.resolve_frame(r, sf, rst))
        if f.op == "fn":
            path, rid, did = f.a[0]
            c = {"path": path, "id": did, "rid": rid, "closures": [], "targs": []}
            return self.docall(fr, b, c, list(args), st, line, None, sub=sub + "!", hof=how, it=it)
        return mk("call", "?apply", (f,) + tuple(args))

    def resolve_closure(self, v, st):
        v = self.deref(v, st)
        while v.op in ("ref", "pushed", "ret"):
            v = self.deref(v, st) if v.op == "ref" else v.a[1] if v.op == "ret" else v.a[0]
        return v

    def absorb(self, st, rst, sf):
        for k, v in rst.items():
            if k[0] != sf.id and st.get(k) is not v:
                st[k] = v

    def absorb_maybe(self, st, rst, sf):
        """a closure the callee runs only in some cases: its writes may not have happened"""
        for k, v in rst.items():
            if k[0] == sf.id:
                continue
            old = st.get(k)
            if old is v:
                continue
            if old is not None and all(m.op in ("c", "none") for m in members(old)) and old.op != "pushed":
                st[k] = phi([mk("pushed", old, ("unless", sf.id)), mk("pushed", v, ("when", sf.id))])
            else:
                st[k] = phi([old, v]) if old is not None else v

    def resolve_frame(self, r, sf, st):
        """a callee's result must not refer to the callee's own locals"""
        if any(x.op == "ref" and x.a[0][0] == sf.id for x in subterms(r)):
            return self.resolve_only(r, sf.id, st)
        return r

    def resolve_only(self, r, fid, st):
        def go(x):
            if x.op == "ref":
                if x.a[0][0] == fid:
                    return go(self.readloc(x.a[0], x.a[1], st))
                return x
            if x.op == "phi":
                return phi([go(y) for y in x.a[0]])
            if not any(y.op == "ref" for y in subterms(x)):
                return x
            return self.resolve(x, st)
        return go(r)

    def wrap_ret(self, sf, r):
        ms = members(r)
        if len(ms) > 1 and (any(m.op in ("none",) for m in ms) or any(strip_def(m) in (TRUE, FALSE) for m in ms)):
            return mk("ret", sf.id, r if r.op != "ret" else r.a[1])
        if len(ms) > 1 and sf.fn.locals and sf.fn.locals[0][0] == "bool":
            return mk("ret", sf.id, r if r.op != "ret" else r.a[1])
        return r

    def docall(self, fr, b, c, args, st, line, t, sub="", hof=None, it=None):
        path = strip_generics(c["path"])
        name = path.split("::")[-1]
        trait = c.get("trait", "").split("::")[-1].split("<")[0] if c.get("trait") else ""
        rid = c.get("rid", c["id"])
        self_ty = head_ty(c.get("self", ""))
        f = self.F.fns.get(rid)
        if trait in self.bind and name:
            g = self.F.one(name=name, self_ty=self.bind[trait], trait=trait, kind="fn")
            if g is not None:
                f, rid = g, g.id
        # ---- constructors used as functions
        seg = path.split("::")
        if f is None and "prelude" in seg and seg[-1] in ("Some", "Ok", "Err"):
            seg = ["Option" if seg[-1] == "Some" else "Result", seg[-1]]
        if f is None and len(seg) >= 2 and re.match(r"[A-Z]", seg[-1]) and re.match(r"[A-Z]", seg[-2]):
            if seg[-1] in POS and seg[-2] in OPT:
                return args[0]
            if seg[-1] == "Err":
                return mkerr(args[0])
            return mk("agg", "::".join(seg[:-1]), seg[-1], tuple((str(i), a) for i, a in enumerate(args)))
        # ---- closures called through Fn* traits
        if trait in ("FnOnce", "FnMut", "Fn", "AsyncFnOnce") and name in ("call_once", "call_mut", "call"):
            cl = args[0]
            tup = self.deref(args[1], st) if len(args) > 1 else UNIT
            n = None
            if tup.op == "agg":
                ca = [v for _, v in tup.a[2]]
            elif tup.op == "unit":
                ca = []
            else:
                ca = [field(tup, "0", "tuple")]
            clr = self.deref(cl, st)
            while clr.op == "ref":
                clr = self.deref(clr, st)
            if clr.op in ("closure", "fn", "phi"):
                return self.apply(fr, b, clr, ca, st, line, hof or "call", it, sub)
            self.emit(fr, b, path, name, self_ty, [self.resolve(a, st) for a in args], line, rid, "t" + sub)
            return mk("call", path, tuple(self.resolve(a, st) for a in args))
        # ---- inlining
        if f is not None and f.kind == "fn" and self.should_inline(f, c):
            sf = self.frame(f, fr, (b, sub), hof=hof, hofiter=it)
            for i, a in enumerate(args):
                st[(sf.id, i + 1)] = a
            self.stack.append(f)
            r, rst = self.exec(sf, st)
            self.stack.pop()
            self.absorb(st, rst, sf)
            r = self.resolve_frame(r, sf, rst)
            return self.wrap_ret(sf, r)
        return self.external(fr, b, c, path, name, trait, self_ty, args, st, line, rid, sub, hof, it, t)

    # -------------------------------------------------------------- external models
    def external(self, fr, b, c, path, name, trait, self_ty, args, st, line, rid, sub, hof, it, t):
        D = lambda x: self.deref(x, st)
        R = lambda x: self.resolve(x, st)
        if self.sets and name in ("iter", "into_iter", "drain", "into_keys", "into_values", "keys", "values") and head_ty(self_ty.lstrip("&").replace("mut ", "")) in SET_TYPES and args:
            # an order and number of elements of its own
            self.sets = False
            x = self.external(fr, b, c, path, name, trait, self_ty, args, st, line, rid, sub, hof, it, t)
            self.sets = True
            return mk("asset", R(D(x)))
        if name in ("iter", "into_iter", "drain", "into_keys", "into_values", "keys", "values") and args and head_ty(self_ty.lstrip("&").replace("mut ", "")) in ("HashSet", "HashMap"):
            v = R(D(args[0]))
            if v.op not in ("field", "param", "call") or v in self.tohash:
                self.hashed.append((fr.fn, line, v))
        destty = ""
        if t is not None and not t[3][1]:
            destty = fr.fn.locals[t[3][0]][0]

        def ev(extra=None, it_=None, sfx=""):
            return self.emit(fr, b, path, name, self_ty, [R(a) for a in args] + (extra or []), line, rid, "t" + sub + sfx, it_ if it_ is not None else it,
                             c.get("targs", ()), destty)

        # await / coroutine bodies
        if name in ("poll", "into_future", "block_on") and args:
            v = D(args[0])
            while v.op == "ref":
                v = D(v)
            if v.op == "closure":
                fn = self.F.fns.get(v.a[0])
                if fn is not None and fn.coroutine:
                    if name == "into_future":
                        return v
                    if not any(x.id == fn.id for x in self.stack):
                        sf = self.frame(fn, fr, (b, sub), hof="await", hofiter=None)
                        st[(sf.id, 1)] = v
                        st[(sf.id, 2)] = mk("resume")
                        self.stack.append(fn)
                        r, rst = self.exec(sf, st)
                        self.stack.pop()
                        self.absorb(st, rst, sf)
                        return self.wrap_ret(sf, self.resolve_frame(r, sf, rst))
            if name == "poll":
                return v
            if name == "into_future":
                return v
        if name in ("spawn_blocking", "spawn", "spawn_local", "block_in_place") and args:
            v = self.resolve_closure(args[0], st)
            fn = self.F.fns.get(v.a[0]) if v.op == "closure" else None
            if fn is not None and not any(x.id == fn.id for x in self.stack):
                e = ev()
                if fn.coroutine:
                    sf = self.frame(fn, fr, (b, sub + "sp"), hof=name, hofiter=None)
                    st[(sf.id, 1)] = v
                    st[(sf.id, 2)] = mk("resume")
                    self.stack.append(fn)
                    r, rst = self.exec(sf, st)
                    self.stack.pop()
                    for k in [k for k in rst if isinstance(k[1], tuple) and k[1][0] == "arc" and k in st]:
                        rst[k] = phi([st[k], rst[k]])  # the task runs beside this function
                    self.absorb(st, rst, sf)
                    r = self.wrap_ret(sf, self.resolve_frame(r, sf, rst))
                else:
                    r = self.apply(fr, b, v, [], st, line, name, None, sub + "sp")
                e.ret = r
                if name == "block_in_place":
                    return r
                bad = mk("err", mk("call", "join", (mk("c", name),)))
                return bad if self.joins == "fail" else mk("okay", r) if self.joins == "ok" else phi([mk("okay", r), bad])
        if name == "branch" and trait == "Try":
            kind = "Option" if "option::Option" in c.get("rpath", "") + c.get("self", "").split("<")[0] else "Result"
            return mk("try", kind, args[0] if args[0].op != "ref" else D(args[0]))
        if name == "from_residual":
            v = args[0]
            if all(m.op == "none" for m in members(v)):
                return NONE
            if v.op == "bot":
                return NONE if "option" in destty.lower() else mk("err", BOT)
            return mkerr(v)
        if name == "from_output":
            return args[0]
        if trait in ("PartialEq",) and name in ("eq", "ne") and len(args) == 2:
            a, bb = R(args[0]), R(args[1])
            e = ev()
            return mk("call", name, (a, bb))
        if trait == "PartialOrd" and name in ("lt", "le", "gt", "ge"):
            ev()
            return mk("bin", name.capitalize(), R(args[0]), R(args[1]))
        if trait == "Default" and not args or name == "default" and not args:
            if COLL_TY.search(self_ty or ""):
                return mk("coll", (fr.id, b), frozenset())
            ty = self_ty or head_ty(destty)
            if COLL_TY.search(ty):
                return mk("coll", (fr.id, b), frozenset())
            ev()
            if ty in ("WriteBatch", "WriteBatchWithTransaction", "Options"):
                return mk("obj", ty, (fr.id, b))
            return mk("default", ty)
        # vec![a, b, ..]
        if name == "new" and path.endswith("Arc::new") and fr.fn.crate == "indradb_proto" and ("Mutex" in destty or "RwLock" in destty):
            loc = (fr.id, ("arc", b))
            st[loc] = phi([st[loc], R(args[0])]) if loc in st else R(args[0])
            return mk("ref", loc, ())
        if (name in ("clone", "lock", "read", "write", "try_lock") or name in ("unwrap", "expect", "unwrap_or_else") and "Guard" in str(c.get("targs"))) and args and fr.fn.crate == "indradb_proto":
            x = args[0]
            while x.op == "ref" and not (isinstance(x.a[0][1], tuple) and x.a[0][1][0] == "arc"):
                x = self.readloc(x.a[0], x.a[1], st)
            if x.op == "ref":
                ev()
                return x
        if name in ("take", "replace") and "option::Option" in path and args and args[0].op == "ref" and fr.fn.crate == "indradb_proto":
            x = args[0]
            while x.op == "ref" and self.readloc(x.a[0], x.a[1], st).op == "ref":
                x = self.readloc(x.a[0], x.a[1], st)
            ev()
            v = self.readloc(x.a[0], x.a[1], st)
            self.writeloc(x.a[0], x.a[1], NONE if name == "take" else R(args[1]), st)
            return v
        if name == "new_uninit" and "Box" in path:
            st[(fr.id, ("box", b))] = BOT
            return mk("ref", (fr.id, ("box", b)), ())
        if name == "box_assume_init_into_vec_unsafe":
            x = R(args[0])
            arr = [y for y in [x] + list(subterms(x)) if y.op == "agg" and y.a[0] == "array"]
            if arr:
                return arr[0]
        # empty collections
        pseg = path.split("::")
        if name in COLL_NEW and len(pseg) >= 2 and COLL_TY.search(pseg[-2]):
            return mk("coll", (fr.id, b), frozenset())
        if not args:
            ev()
            return mk("obj", "::".join(pseg[-2:]), (fr.id, b)) if name in ("new", "now_v1", "new_v4", "default") else mk("call", path, ())
        a0 = args[0]
        v0 = D(a0)
        while v0.op == "ref":
            v0 = D(v0)

        # mem::replace / take / swap
        if path.endswith(("mem::take", "mem::replace")) and a0.op == "ref":
            old = self.readloc(a0.a[0], a0.a[1], st)
            self.writeloc(a0.a[0], a0.a[1], args[1] if len(args) > 1 else mk("default", "?"), st)
            ev()
            return old
        if path.endswith("mem::drop") or path.endswith("mem::forget"):
            ev()
            return UNIT

        if path.endswith("Streaming::message") and args:
            el = elem(R(v0))
            k = self.known(el, "R")
            good = mk("okay", tag(el, NEXT(R(v0))))
            return good if k is True else mkerr(el) if k is False else phi([good, mkerr(el)])
        if name == "transpose" and args and "result::Result" in path:  # Result<Option<T>> to Option<Result<T>>
            return phi([m.a[0] if m.op == "okay" and m.a[0].op == "none" else m for m in members(R(v0))])
        if name == "transpose" and args:
            v = R(v0)
            while v.op == "ret":
                v = v.a[1]
            if v.op == "pushed" and is_next(v.a[1]):  # the next element of an iteration over results, if there is one
                ms = [m for m in members(v.a[0]) if m.op != "err"]
                errs = [m for m in members(v.a[0]) if m.op == "err"]
                good = [mk("okay", tag(phi([m.a[0] if m.op == "okay" else m for m in ms]), v.a[1]))] if ms else []
                k = self.known(v.a[0], "R")
                return phi(errs + good + ([mkerr(phi(ms))] if ms and not errs and k is not True else []))
            return phi([mk("okay", NONE) if m.op == "none" else m if m.op != "okay" else mk("okay", mk("okay", field(m.a[0], "0", "Result", "Ok"))) if self.known(m.a[0], "R") else m.a[0] for m in members(R(v0))])

        # iterator / option adapters taking closures
        cls = [i for i, a in enumerate(args) if i > 0 and self.is_callable(a, st)]
        is_iter = trait in ("Iterator", "IntoIterator", "DoubleEndedIterator", "ExactSizeIterator", "Stream", "StreamExt", "Extend", "FromIterator", "ParallelIterator")
        is_opt = "option::Option" in path or "result::Result" in path
        if cls:
            return self.hof_call(fr, b, c, path, name, trait, args, cls, v0, st, line, sub, ev, is_iter, is_opt, R)

        if is_iter or "slice::" in path or trait in ("IteratorExt",):
            if name == "next":
                return tag(elem(R(v0)), NEXT(R(v0)))
            if name in ("next_back", "last", "nth", "min", "max", "first", "peek"):
                if name not in ("next_back", "peek"):
                    ev()
                return tag(elem(R(v0)), NEXT(R(v0)))
            if name in ("take", "skip", "step_by"):
                ev()
                return mk("take" if name != "skip" else "skip", R(v0), R(args[1]))
            if name in ("rev",):
                return mk("rev", R(v0))
            if name == "chain":
                return mk("chain", R(v0), R(args[1]))
            if name == "zip":
                return mk("zip", R(v0), R(args[1]))
            if name == "enumerate":
                return mk("enumerate", R(v0))
            if name in ("flatten",):
                ev()
                return mk("flat", R(v0))
            if name in ("collect", "from_iter", "into_iter", "cloned", "copied", "by_ref", "fuse", "peekable"):
                if name == "collect" and re.search(r"\b(HashSet|HashMap)<", destty):
                    self.tohash.add(R(D(args[0])))
                if name == "collect":
                    # keep the result type visible for error-dropping rules
                    self.emit(fr, b, path, name, self_ty, [R(a) for a in args], line, rid, "t" + sub, it, c.get("targs", ()), destty)
                if name == "into_iter" and self_ty == "Option":
                    return mk("optit", R(v0))
                return R(v0) if name != "into_iter" or v0.op != "ref" else v0
            if name in ("count", "sum", "product"):
                ev()
                return mk("call", name, (R(v0),))
        if name in ("keys", "into_keys"):
            return mk("keys", R(v0))
        if name in ("values", "into_values", "values_mut"):
            return mk("values", R(v0))
        if name == "len" and len(args) == 1:
            v = R(v0)
            if v.op == "coll":  # the number of elements; which ones does not matter, and a loop that tests it must not grow the term
                v = mk("coll", v.a[0], frozenset())
            elif v.op == "phi" and all(x.op == "coll" for x in v.a[0]) and len({x.a[0] for x in v.a[0]}) == 1:
                v = mk("coll", next(iter(v.a[0])).a[0], frozenset())
            return mk("call", "len", (v,))
        if name == "is_empty" and len(args) == 1:
            return mk("call", "is_empty", (R(v0),))
        if name in ("is_some", "is_none", "is_ok", "is_err") and is_opt:
            ev()
            return mk("call", name, (R(v0),))
        if name in ("unwrap", "expect", "unwrap_err", "expect_err", "unwrap_unchecked") and is_opt:
            ev()
            return field(R(v0) if v0.op != "ref" else v0, "0", "Option" if "option::Option" in path else "Result", "Some")
        if name in ("ok", "err", "unwrap_or", "unwrap_or_default") and is_opt:
            ev()
            kind = "O" if "option::Option" in path else "R"
            if name == "unwrap_or":
                return self.orelse(R(v0), kind, field(R(v0), "0", "Option" if "option::Option" in path else "Result", "Some"), R(args[1]))
            if name == "err":
                return field(v0, "0", "Result", "Err")
            if name == "ok":
                w = R(v0)
                return phi([NONE if m.op == "err" else m for m in members(w)]) if any(m.op == "err" for m in members(w)) else v0
            ty = head_ty(destty)
            return self.orelse(R(v0), kind, field(R(v0), "0", "Option" if "option::Option" in path else "Result", "Some"), mk("coll", (fr.id, b), frozenset()) if COLL_TY.search(ty) else mk("default", ty))
        if name == "then_some" and "bool" in path and len(args) == 2:
            ev()
            return self.when(R(v0), R(args[1]))
        if name == "ok_or" and is_opt and self.known(R(v0)) is False:
            return mk("err", R(args[1]))

        # collections held in locals
        if a0.op == "ref" and name in ADD:
            tgt = self.readloc(a0.a[0], a0.a[1], st)
            if tgt.op == "entry":
                base = tgt.a[0]
                if base.op == "ref":
                    self.coll_add(base, mk("agg", "tuple", "", (("0", tgt.a[1]), ("1", mk("coll", ("entry",), frozenset([R(args[-1])]))))), fr, b, sub, st, ev())
                    return mk("call", path, tuple(R(a) for a in args))
            if self.colllike(tgt):
                e = ev(sfx="")
                if name in ("extend", "append", "extend_from_slice"):
                    src = R(args[1])
                    e.iter = src
                    item = elem(src)
                elif name == "push_str":
                    item = R(args[1])
                elif name == "insert" and len(args) == 3 and not path.endswith("Vec::insert"):
                    item = mk("agg", "tuple", "", (("0", R(args[1])), ("1", R(args[2]))))
                else:
                    item = R(args[-1])
                self.coll_add(a0, item, fr, b, sub, st, e)
                return mk("call", path, (mk("coll", ("self",), frozenset()),) + tuple(R(a) for a in args[1:]))
        if v0.op == "entry" and name in ("or_default", "or_insert", "or_insert_with", "or_insert_with_key"):
            return v0
        if v0.op == "entry" and name in ADD:
            base = v0.a[0]
            e = ev()
            self.coll_add(base, mk("agg", "tuple", "", (("0", v0.a[1]), ("1", mk("coll", ("entry",), frozenset([R(args[-1])]))))), fr, b, sub, st, e)
            return mk("call", path, tuple(R(a) for a in args))
        if name == "entry" and a0.op == "ref" and self.colllike(self.readloc(a0.a[0], a0.a[1], st)):
            return mk("entry", a0, R(args[1]))

        ra = [R(a) for a in args]
        if name in ("into", "from") and trait in ("Into", "From"):
            # conversions outside the workspace: keep the provenance
            ev()
            return args[0] if args[0].op != "ref" else D(args[0])
        sfx2 = "::".join(pseg[-2:])
        if any(path.endswith(v) and (sfx2 == v or v in ("Some", "Ok")) for v in VIEW_SUFFIX):
            if name in ("lock", "read", "write"):
                ev()
            return a0 if a0.op != "ref" or name in ("new", "pin", "from") else v0
        if name in TRANSPARENT:
            if name in ("clone", "cloned", "copied", "to_owned", "to_vec", "to_string", "to_path_buf"):
                x = R(v0)
                if name == "clone" and MAP_TY.search(self_ty or "") and x.op in ("field", "param"):
                    return mk("copy", x)
                return x
            if name in ("lock", "read", "ok_or", "into_inner", "new_unchecked", "drain"):
                ev()
                if name == "new_unchecked" and "Pin" not in path:
                    return mk("call", path, tuple(ra))
            if a0.op == "ref" and name in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "by_ref", "as_mut_slice", "as_slice",
                                            "iter_mut", "as_deref", "as_deref_mut", "as_pin_mut"):
                x = self.readloc(a0.a[0], a0.a[1], st)
                if name == "deref_mut" and (self_ty or "").endswith("Guard"):
                    return x
                return x if x.op == "ref" else a0
            return v0 if a0.op == "ref" else a0

        e = ev()
        res = mk("call", path, tuple(ra))
        # opaque callee mutating a local through &mut
        if t is not None:
            for i, a in enumerate(args):
                if a.op == "ref" and t[2][i][0] in ("copy", "move"):
                    pty = fr.fn.locals[t[2][i][1][0]][0] if not t[2][i][1][1] else ""
                    if pty.startswith("&mut") or "&mut" in pty[:8]:
                        old = self.readloc(a.a[0], a.a[1], st)
                        if old.op == "obj":
                            continue
                        site = (fr.id, b)
                        if any(x.op == "mut" and x.a[1] == site for x in subterms(old)):
                            continue
                        self.writeloc(a.a[0], a.a[1], mk("mut", path, site, self.resolve(old, st), tuple(x for j, x in enumerate(ra) if j != i)), st)
        e.ret = res
        return res

    def colllike(self, t):
        return t.op == "coll" or t.op == "phi" and all(m.op == "coll" for m in members(t)) or t.op == "default" and COLL_TY.search(t.a[0] or "")

    def coll_add(self, ref, item, fr, b, sub, st, e):
        tgt = self.readloc(ref.a[0], ref.a[1], st)
        items = set()
        tag = None
        for m in members(tgt):
            if m.op == "coll":
                items |= m.a[1]
                tag = tag or m.a[0]
        p = mk("pushed", item, e.id)
        if item.op == "pushed":
            p = mk("pushed", item, e.id)
        items.add(p)
        if len(items) > 24:
            items = {mk("top", frozenset(roots_of(items)))}
        self.writeloc(ref.a[0], ref.a[1], mk("coll", tag or (fr.id, b), frozenset(items)), st)

    def is_callable(self, a, st):
        x = self.deref(a, st)
        return x.op == "closure" and x.a[0] in self.F.fns and not self.F.fns[x.a[0]].coroutine or x.op == "fn"

    def hof_call(self, fr, b, c, path, name, trait, args, cls, v0, st, line, sub, ev, is_iter, is_opt, R):
        src = R(v0)
        if name == "then" and "bool" in path and len(args) == 2:
            ev()
            if self.truth(src) == "0":
                return NONE
            return self.when(src, self.apply(fr, b, args[1], [], st, line, "bool.then", src, sub + "c0"))
        if name in ("map_err", "or_else", "unwrap_or_else", "ok_or_else", "inspect_err", "map_or_else") and is_opt:
            ev()
            ea = field(src, "0", "Result", "Err")
            n_arg = [] if name == "ok_or_else" or "option::Option" in path else [ea]
            r = self.apply(fr, b, args[cls[0]], n_arg, st, line, name, src, sub + "c0")
            ok = field(src, "0", "Option" if "option::Option" in path else "Result", "Some")
            if name == "map_err":
                k = self.known(src, "R")
                good = phi([m if m.op == "okay" else field(m, "0", "Option" if "option::Option" in path else "Result", "Some") for m in members(src)])
                return good if k is True else mkerr(r) if k is False else phi([good, mkerr(r)])
            if name == "ok_or_else":
                k = self.known(src)
                return phi([ok, mk("err", r)]) if k is None else mk("okay", ok) if k else mk("err", r)
            if name == "inspect_err":
                return src
            if name == "map_or_else" and len(cls) > 1:
                r2 = self.apply(fr, b, args[cls[1]], [ok], st, line, name, src, sub + "c1")
                return self.orelse(src, "O" if "option::Option" in path else "R", r2, r)
            if name == "unwrap_or_else":
                return self.orelse(src, "O" if "option::Option" in path else "R", ok, r)
            return phi([ok, r])
        if is_opt and name in ("map", "and_then", "filter", "is_some_and", "is_ok_and", "map_or", "inspect", "is_none_or", "zip_with"):
            ok = phi([m if m.op == "okay" and "option::Option" in path else field(m, "0", "Option" if "option::Option" in path else "Result", "Some") for m in members(src)])
            kind = "O" if "option::Option" in path else "R"
            k = self.known(src, kind)
            rest = [m for m in members(src) if m.op in ("none", "err")]
            if k is False and name in ("map", "and_then", "map_or"):
                ev()
                if name == "map_or":
                    return R(args[1])
                return NONE if kind == "O" else mkerr(field(src, "0", "Result", "Err"))
            r = self.apply(fr, b, args[cls[-1]], [ok], st, line, "opt." + name, src, sub + "c0")
            if k is True and name in ("map", "and_then"):
                return r if name == "and_then" else mk("okay", r)
            if name in ("is_some_and", "is_ok_and", "is_none_or"):
                ev()
                return mk("call", name, (src, r))
            if name == "filter":
                return mk("ofilter", src, r)
            if name == "inspect":
                return src
            if name == "map_or":
                return self.orelse(src, "O" if "option::Option" in path else "R", r, R(args[1]))
            if name == "and_then":
                return phi([r] + rest) if rest else r
            # Option::map keeps the option's presence: remember the source
            return phi([mk("omap", src, r) if r.op in ("c", "agg", "unit", "coll", "closure") and False else r] + rest)
        if is_iter:
            el = elem(src)
            if name in ("fold", "try_fold"):
                acc = R(args[1])
                r = self.apply(fr, b, args[cls[-1]], [acc, el], st, line, "iter." + name, src, sub + "c0")
                nxt = [m.a[0] if m.op == "okay" else m for m in members(r) if m.op not in ("err", "none")] if name == "try_fold" else [r]
                r = self.apply(fr, b, args[cls[-1]], [phi([acc] + nxt), el], st, line, "iter." + name, src, sub + "c0")
                ev()
                return phi([acc, r])
            r = self.apply(fr, b, args[cls[-1]], [el], st, line, "iter." + name, src, sub + "c0")
            if name not in ("map",):
                ev([r])
            if name == "map":
                return mk("map", src, r)
            if name in ("filter",):
                return mk("filter", src, r, self.last_frame(fr, b, sub + "c0"))
            if name in ("filter_map", "map_while", "find_map"):
                rr = mk("fmap", src, r, self.last_frame(fr, b, sub + "c0"), *(("while",) if name == "map_while" else ()))
                return rr if name != "find_map" else tag(elem(rr), NEXT(rr))
            if name in ("flat_map",):
                return mk("flat", mk("map", src, r))
            if name in ("take_while",):
                return mk("takewhile", src, r, self.last_frame(fr, b, sub + "c0"))
            if name in ("skip_while",):
                return mk("skipwhile", src, r, self.last_frame(fr, b, sub + "c0"))
            if name in ("inspect",):
                return src
            if name in ("for_each",):
                return UNIT
            if name in ("try_for_each",):
                return r
            if name in ("find",):
                ff = mk("filter", src, r, self.last_frame(fr, b, sub + "c0"))
                return tag(elem(ff), NEXT(ff))
            return mk("call", path, (src, r))
        # any other function receiving callables: applied with what we know about the first argument
        res = []
        for n, i in enumerate(cls):
            f = self.deref(args[i], st)
            k = 0
            if f.op == "closure":
                fn = self.F.fns[f.a[0]]
                k = fn.nargs - 1
            pa = []
            if f.op == "closure" and k > 0:
                inner = elem(src) if name.startswith(("retain", "sort", "dedup", "drain")) else src
                pa = [inner] * k
                if name == "map" and "::map" in path and False:
                    pa = [src]
            elif f.op == "fn":
                pa = [src]
            res.append(self.apply(fr, b, args[i], pa, st, line, "hof:" + path, src, sub + f"c{n}"))
        e = ev(res)
        if name in ("retain", "retain_mut", "dedup_by", "dedup_by_key", "extract_if") and ("vec::" in path or "VecDeque" in path) and args[0].op == "ref":
            old = self.readloc(args[0].a[0], args[0].a[1], st)
            if name.startswith("retain"):
                if len(res) == 1 and not (old.op == "filter" and old.a[1] is res[0]):
                    self.writeloc(args[0].a[0], args[0].a[1], mk("filter", self.resolve(old, st), res[0], self.last_frame(fr, b, sub + "c0")), st)
            elif not any(x.op == "mut" and x.a[1] == (fr.id, b) for x in subterms(old)):
                self.writeloc(args[0].a[0], args[0].a[1], mk("mut", path, (fr.id, b), self.resolve(old, st), tuple(res)), st)
        if name in ("or_insert_with", "or_insert_with_key") and v0.op == "entry":
            return v0
        if name in ("spawn_blocking", "spawn", "spawn_local", "block_in_place", "block_on", "call_once", "get_or_init", "with", "unwrap_or_else"):
            return res[0] if res[0].op not in ("bot",) else mk("call", path, tuple(R(a) for a in args))
        return mk("call", path, tuple(R(a) for a in args))

    def before(self, x, y):
        """event x happens before event y whenever both happen (for one loop iteration around both)"""
        def chain(e):
            fr, b, r = self.frames[e.fid], e.block, []
            while fr is not None:
                r.append((fr.id, b, fr.site))
                b = fr.site[0] if fr.site else None
                fr = fr.parent
            return r[::-1]
        cx, cy = chain(x), chain(y)
        i = 0
        while i + 1 < min(len(cx), len(cy)) and cx[i][1] == cy[i][1] and cx[i + 1][0] == cy[i + 1][0]:
            i += 1
        fid, bx, by = cx[i][0], cx[i][1], cy[i][1]
        if bx == by:
            return x.order < y.order
        fn = self.frames[fid].fn
        pos = {b: k for k, b in enumerate(rpo(fn))}

        def reach(a, b, dag):
            seen, st = set(), [a]
            while st:
                n = st.pop()
                for m in fn.succ.get(n, []):
                    if dag and pos.get(m, 0) <= pos.get(n, 0):
                        continue
                    if m == b:
                        return True
                    if m not in seen:
                        seen.add(m)
                        st.append(m)
            return False
        f, g = reach(bx, by, False), reach(by, bx, False)
        if f != g:
            return f
        if not f:
            return x.order < y.order
        return reach(bx, by, True) and not reach(by, bx, True)

    def last_frame(self, fr, b, sub):
        # frame id of the closure applied at (b, sub), if any
        for (fid, pid, site), i in self.fids.items():
            if pid == fr.id and site == (b, sub):
                return i
        return -1


class Budget(Exception):
    pass


def dedupe(l):
    r = []
    for x in l:
        if x not in r:
            r.append(x)
    return r


def strip_def(t):
    while t.op == "pushed" and t.a[1][0] == "def":
        t = t.a[0]
    return t


def multibool(fn):
    """locals of type bool that are assigned in several blocks"""
    if fn._pd and "mb" in fn._pd:
        return fn._pd["mb"]
    at = {}
    for i, blk in enumerate(fn.blocks):
        for s in blk["s"]:
            if s[0] == "=" and not s[1][1]:
                at.setdefault(s[1][0], set()).add(i)
        t = blk["t"]
        if t[0] == "call" and not t[3][1]:
            at.setdefault(t[3][0], set()).add(i)
    fn._pd = fn._pd or {}
    fn._pd["mb"] = {l for l, bs in at.items() if len(bs) > 1 and l and fn.locals[l][0] == "bool"}
    return fn._pd["mb"]


def rpo(fn):
    if fn._pd and "rpo" in fn._pd:
        return fn._pd["rpo"]
    succ = fn.cfg()
    seen, out = set(), []

    def dfs(s):
        stack = [(s, iter(succ.get(s, [])))]
        seen.add(s)
        while stack:
            n, itr = stack[-1]
            for m in itr:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(succ.get(m, []))))
                    break
            else:
                out.append(n)
                stack.pop()
    dfs(0)
    out.reverse()
    fn._pd = fn._pd or {}
    fn._pd["rpo"] = out
    return out


def bool_norm(v):
    """(atom, polarity) normal form of a boolean term"""
    pol = True
    while True:
        if v.op == "un" and v.a[0] == "Not":
            v = v.a[1]
            pol = not pol
            continue
        if v.op == "pushed":
            v = v.a[0]
            continue
        if v.op == "call":
            p, a = v.a
            n = p.split("::")[-1]
            if n == "ne" and len(a) == 2:
                v = mk("eq", *sorted(a, key=lambda z: z.h))
                pol = not pol
                break
            if n == "eq" and len(a) == 2:
                v = mk("eq", *sorted(a, key=lambda z: z.h))
                break
            if n in ("is_some", "is_ok"):
                return disc_atom(a[0], "O" if n == "is_some" else "R"), pol
            if n in ("is_none", "is_err"):
                return disc_atom(a[0], "O" if n == "is_none" else "R"), not pol
            if n in ("contains_key", "contains") and len(a) == 2:
                v = mk("has", a[0], a[1])
                break
            if n == "is_empty":
                v = mk("empty", a[0])
                break
        if v.op == "bin":
            o, a, b = v.a
            if o == "Eq":
                v = mk("eq", *sorted((a, b), key=lambda z: z.h))
                for x, y in ((a, b), (b, a)):
                    if x.op == "call" and x.a[0] == "len" and y.op == "c" and y.a[0] == "0":
                        v = mk("empty", x.a[1][0])
                break
            if o == "Ne":
                v = mk("bin", "Eq", a, b)
                pol = not pol
                continue
            if o == "Gt":
                v = mk("bin", "Lt", b, a)
                continue
            if o == "Ge":
                v = mk("bin", "Lt", a, b)
                pol = not pol
                continue
            if o == "Le":
                v = mk("bin", "Lt", b, a)
                pol = not pol
                continue
        break
    return v, pol


def disc_atom(x, kind="O"):
    """atom for `x is Some` (O) / `x is Ok` (R) / `x is Ready` (P)"""
    if x.op == "pushed":
        return disc_atom(x.a[0], kind)
    if x.op == "try":
        return disc_atom(x.a[1], x.a[0][0])
    if kind == "O" and x.op == "call" and x.a[0].split("::")[-1] in ("get", "get_mut", "get_key_value") and len(x.a[1]) == 2:
        return mk("has", x.a[1][0], x.a[1][1])
    return mk("is", x, kind)
