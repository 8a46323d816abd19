"""Branch conditions of events: control dependence + boolean reach functions.

For an event the relevant branches are those it is (transitively) control
dependent on, computed on a CFG from which panicking edges and error-return
edges are removed.  The reach function over the outcomes of those branches is
built by one forward pass over the loop-free CFG and kept in disjunctive form.
Conditions of inlined callers, of closures' call sites (`for_each`, `map`, ...),
of collection pushes and of filter closures are conjoined.
"""
from engine import *

TOP = frozenset([frozenset()])  # true
FALSEC = frozenset()
CAP = 512


def simplify(d):
    d = set(d)
    # consistency
    ok = set()
    for c in d:
        seen = {}
        bad = False
        for a, l in c:
            ls = l if isinstance(l, frozenset) else frozenset([l])
            if a in seen and not (seen[a] & ls):
                bad = True
                break
            seen[a] = seen[a] & ls if a in seen else ls
        if not bad:
            ok.add(frozenset((a, next(iter(l)) if len(l) == 1 else l) for a, l in seen.items()))
    d = ok
    ch = True
    while ch and len(d) < CAP * 4:
        ch = False
        # absorption
        l = sorted(d, key=len)
        keep = []
        for c in l:
            if any(k <= c for k in keep):
                ch = True
                continue
            keep.append(c)
        d = set(keep)
        # complementary Y/N merge
        for c in list(d):
            for (a, lab) in c:
                if lab in ("Y", "N"):
                    o = (c - {(a, lab)}) | {(a, "N" if lab == "Y" else "Y")}
                    if o in d:
                        d.discard(c)
                        d.discard(o)
                        d.add(c - {(a, lab)})
                        ch = True
                        break
            if ch:
                break
    return frozenset(d)


def conj(a, b):
    if a == TOP:
        return b
    if b == TOP:
        return a
    r = set()
    for x in a:
        for y in b:
            r.add(x | y)
            if len(r) > CAP * 4:
                raise CondTooBig()
    r = simplify(r)
    if len(r) > CAP:
        raise CondTooBig()
    return r


def disj(a, b):
    return simplify(a | b)


def exhausted(a, l):
    """does the literal say that an iterator or a queue has no further item?"""
    if l != "N":
        return False
    if a.op == "iter":
        return True
    if a.op == "is":
        x = strip(a.a[0])
        return x.op == "call" and x.a[0].split("::")[-1] in ("next", "pop", "pop_front", "pop_back", "pop_first", "pop_last", "peek", "next_back", "recv")
    return False


def failed(a, l):
    """does the literal say that an item of an iterator is an error? (that errors are not lost is decided elsewhere)"""
    return l == "N" and a.op == "is" and a.a[1] == "R" and all(strip(x).op in ("elem", "agg", "err") for x in members(strip(a.a[0])))


class CondTooBig(Exception):
    pass


class Cond:
    def __init__(self, an):
        self.A = an
        self.memo = {}
        self.gmemo = {}
        self.busy = set()

    # ------------------------------------------------ pruned CFG per frame
    def graph(self, fid):
        if fid in self.gmemo:
            return self.gmemo[fid]
        fr = self.A.frames[fid]
        fn = fr.fn
        vis = {b for b in fr.visits}
        succ = {}
        for b in vis:
            t = fn.blocks[b]["t"]
            if t[0] == "switch" and b in fr.sw:
                v, tt = fr.sw[b]
                succ[b] = [x for x in self.A.feasible(v, tt) if x in vis]
            else:
                succ[b] = [x for x in fn.succ.get(b, []) if x in vis]
        rets = [b for b in vis if fn.blocks[b]["t"][0] == "return"]
        pred = {b: [] for b in vis}
        for b, l in succ.items():
            for x in l:
                pred[x].append(b)

        def back(seeds):
            s, st = set(), list(seeds)
            while st:
                x = st.pop()
                if x in s:
                    continue
                s.add(x)
                st.extend(pred[x])
            return s

        def fwd(seeds):
            s, st = set(), list(seeds)
            while st:
                x = st.pop()
                if x in s:
                    continue
                s.add(x)
                st.extend(succ[x])
            return s
        live = back(rets) if rets else set(vis)
        goodw = [b for b, v in fr.retw.items() if b in live and not all_err(v)]
        badw = [b for b, v in fr.retw.items() if b in live and all_err(v)]
        normal = set(live)
        if badw and (goodw or True):
            # a good assignment counts only if it can reach return without being overwritten by an error
            G = back(goodw)
            post = fwd(goodw)
            normal = {b for b in live if b in G or b in post}
            if not goodw:
                normal = set(live)
        ps = {b: [x for x in l if x in normal] for b, l in succ.items() if b in normal}
        r = dict(succ=succ, pruned=ps, normal=normal, live=live, vis=vis, rets=rets, errs=set(live) - normal)
        self.gmemo[fid] = r
        return r

    def local(self, fid, block):
        k = (fid, block)
        if k in self.memo:
            return self.memo[k]
        fr = self.A.frames[fid]
        g = self.graph(fid)
        if block not in g["vis"]:
            return FALSEC
        S = g["pruned"] if block in g["normal"] else g["succ"]
        if block not in S:
            S = g["succ"]
        B = self.cd_branches(fid, block, S)
        order = [b for b in rpo(fr.fn) if b in S]
        pos = {b: i for i, b in enumerate(order)}
        # ancestors of the block on the acyclic graph
        anc, st = set(), [block]
        pr = {}
        for b, l in S.items():
            for x in l:
                if x in pos and pos[x] > pos[b]:
                    pr.setdefault(x, []).append(b)
        while st:
            x = st.pop()
            if x in anc:
                continue
            anc.add(x)
            st.extend(pr.get(x, []))
        D = {order[0]: TOP}
        for b in order:
            if b not in anc or b not in D:
                continue
            if b == block:
                break
            for x in set(S[b]):
                if x in pos and pos[x] > pos[b] and x in anc:
                    lit = self.edge(fid, b, x) if b in B else TOP
                    c = conj(D[b], lit)
                    D[x] = disj(D[x], c) if x in D else c
        r = conj(D.get(block, FALSEC), self.cuts(fid, block, S, pos))
        self.memo[k] = r
        return r

    def natloops(self, fid, S, pos):
        """natural loops of the graph S: {header: body}"""
        key = ("loops", fid, len(S), sum(len(v) for v in S.values()))
        if key in self.gmemo:
            return self.gmemo[key]
        pred = {}
        for b, l in S.items():
            for x in l:
                pred.setdefault(x, []).append(b)
        res = {}
        for b, l in S.items():
            for h in l:
                if h in pos and b in pos and pos[h] <= pos[b]:
                    body, st = {h}, [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in pred.get(x, []) if p in pos)
                    res.setdefault(h, set()).update(body)
        self.gmemo[key] = res
        return res

    def exits(self, fid, body, S):
        """edges that leave a loop early: not because its iterator or queue is exhausted"""
        r = []
        for b in sorted(body):
            for s in S.get(b, []):
                if s in body:
                    continue
                # several exits joined by jumps: the branch that decides is the one with a successor in the body
                if all(x not in body for x in S[b]):
                    continue
                e = self.edge(fid, b, s)
                if e == FALSEC or e != TOP and e and all(any(exhausted(a, l) or failed(a, l) for a, l in c) for c in e):
                    continue
                r.append((b, s))
        return r

    def cuts(self, fid, block, S, pos):
        """literals for the early exits of the loops around a block"""
        out = TOP
        for h, body in self.natloops(fid, S, pos).items():
            if block not in body:
                continue
            ex = self.exits(fid, body, S)
            if ex:
                out = conj(out, frozenset([frozenset([(mk("cut", const(fid), tuple(const(f"{b}>{s}") for b, s in ex)), "Y")])]))
        return out

    def stays(self, atom):
        """per early exit of a cut: the condition under which the loop goes on"""
        fid = int(atom.a[0].a[0])
        S = self.graph(fid)["succ"]
        r = []
        for x in atom.a[1]:
            b, s = map(int, x.a[0].split(">"))
            d = FALSEC
            for o in S[b]:
                if o != s:
                    d = disj(d, self.edge(fid, b, o))
            r.append(d)
        return r

    def cd_branches(self, fid, block, S):
        """branch blocks the block is transitively control dependent on"""
        pd = self.postdom(fid, S)
        res, st = set(), [block]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for b, l in S.items():
                if len(set(l)) < 2:
                    continue
                if b in res and b in seen:
                    continue
                if any(x in pd[s] for s in set(l)) and not (x in pd[b] and x != b):
                    if not all(x in pd[s] for s in set(l)):
                        res.add(b)
                        st.append(b)
        return res

    def postdom(self, fid, S):
        key = (fid, len(S), sum(len(v) for v in S.values()))
        if key in self.gmemo:
            return self.gmemo[key]
        nodes = list(S)
        allb = set(nodes)
        exits = [b for b in nodes if not [x for x in S[b] if x in allb]]
        pd = {b: set(allb) for b in nodes}
        for e in exits:
            pd[e] = {e}
        ch = True
        order = list(reversed([b for b in rpo(self.A.frames[fid].fn) if b in allb]))
        while ch:
            ch = False
            for b in order:
                ss = [x for x in S[b] if x in allb]
                if not ss:
                    continue
                n = set.intersection(*[pd[s] for s in ss]) | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        self.gmemo[key] = pd
        return pd

    # ------------------------------------------------ literals
    def edge(self, fid, b, s):
        fr = self.A.frames[fid]
        t = fr.fn.blocks[b]["t"]
        if t[0] != "switch" or b not in fr.sw:
            return TOP
        v, tt = fr.sw[b]
        if v.op == "discr":
            names = set()
            val2 = {dv: n for n, dv in v.a[2]}
            listed = set()
            for x, tg in tt[2]:
                listed.add(x)
                if tg == s:
                    names.add(val2.get(x, x))
            if tt[3] == s:
                names |= {n for dv, n in val2.items() if dv not in listed}
            return self.discr_lit(v.a[0], v.a[1], names, {n for n, _ in v.a[2]})
        if tt[4] == "bool":
            vals = {x for x, tg in tt[2] if tg == s}
            if tt[3] == s:
                vals |= {"0", "1"} - {x for x, _ in tt[2]}
            if vals == {"0", "1"}:
                return TOP
            return self.bool_lit(v, "1" in vals, (fid, b))
        vals = {x for x, tg in tt[2] if tg == s}
        if tt[3] == s:
            vals.add("other")
        if v.op == "call" and v.a[0].split("::")[-1] == "len" and vals == {"0"}:
            return frozenset([frozenset([(mk("empty", v.a[1][0]), "Y")])])
        if v.op == "call" and v.a[0].split("::")[-1] == "len" and vals == {"other"} and {x for x, _ in tt[2]} == {"0"}:
            return frozenset([frozenset([(mk("empty", v.a[1][0]), "N")])])
        return frozenset([frozenset([(mk("int", v), frozenset(vals))])])

    def pushconds(self, term):
        """conditions under which the tagged values inside a term came into existence"""
        memo = {}

        def go(x):
            if x in memo:
                return memo[x]
            memo[x] = TOP
            if x.op == "pushed":
                c = go(x.a[0])
                if not is_next(x.a[1]):
                    c = conj(self.tagcond(x.a[1]), c)
            elif x.op in ("phi", "coll"):
                ms = x.a[0] if x.op == "phi" else x.a[1]
                c = FALSEC
                for y in ms:
                    c = disj(c, go(y))
                    if c == TOP:
                        break
                if not ms:
                    c = TOP
            elif x.op == "ret":
                c = go(x.a[1])
            elif x.op in ("err", "none"):
                c = TOP
            else:
                c = TOP
                for y in kids(x):
                    c = conj(c, go(y))
            memo[x] = c
            return c
        return go(term)

    def iterlit(self, it):
        """`it` yields an element: conditions of the adapters and the base sources"""
        x = it
        o = x.op
        if o in ("map", "rev", "peek", "enumerate", "keys", "values", "inspect"):
            return self.iterlit(x.a[0])
        if o == "pushed":
            return conj(self.iterlit(x.a[0]), self.tagcond(x.a[1]) if not is_next(x.a[1]) else TOP)
        if o == "ret":
            return self.iterlit(x.a[1])
        if o in ("filter", "fmap", "takewhile", "skipwhile"):
            return conj(self.iterlit(x.a[0]), self.tagcond((o + ("w" if o == "fmap" and len(x.a) > 3 else ""), x.a[2])))
        if o in ("take", "skip"):
            return conj(self.iterlit(x.a[0]), self.tagcond((o, x.a[1], x.a[0])))
        if o == "zip":
            return conj(self.iterlit(x.a[0]), self.iterlit(x.a[1]))
        if o == "chain":
            return disj(self.iterlit(x.a[0]), self.iterlit(x.a[1]))
        if o == "flat":
            return conj(self.iterlit(x.a[0]), self.iterlit(elem(x.a[0])))
        if o == "optit":
            return self.is_lit(x.a[0], "O", True)
        if o == "coll":
            return self.pushconds(x)
        if o == "agg" and x.a[0] == "array":
            return TOP
        if o == "phi":
            r = FALSEC
            for y in x.a[0]:
                if y.op in ("none", "err"):
                    continue
                r = disj(r, self.iterlit(y))
            return r
        return conj(self.pushconds(x), frozenset([frozenset([(mk("iter", clean(x)), "Y")])]))

    def tagcond(self, tg):
        if tg in self.busy:
            return TOP
        self.busy.add(tg)
        try:
            k = tg[0]
            if k in ("filter", "takewhile"):
                r = self.returns(tg[1], True)
                if k == "takewhile":
                    return conj(r, frozenset([frozenset([(mk("tw", const(tg[1])), "Y")])]))
                return r
            if k == "skipwhile":
                return frozenset([frozenset([(mk("skipwhile", const(tg[1])), "Y")])])
            if k == "fmap":
                return self.returns_some(tg[1])
            if k == "fmapw":
                return conj(self.returns_some(tg[1]), frozenset([frozenset([(mk("tw", const(tg[1]), const("some")), "Y")])]))
            if k in ("when", "unless"):
                fr = self.A.frames[tg[1]]
                d = self.hoflit(fr)
                if k == "when":
                    return d
                if len(d) == 1 and len(next(iter(d))) == 1:
                    a, l = next(iter(next(iter(d))))
                    if l in ("Y", "N"):
                        return frozenset([frozenset([(a, "N" if l == "Y" else "Y")])])
                return frozenset([frozenset([(mk("unless", const(tg[1])), "Y")])])
            if k == "alt":
                return self.iterlit(tg[1].a[tg[2]])
            if k in ("take", "skip"):
                return frozenset([frozenset([(mk(k, *tg[1:]), "Y")])])
            if k == "opt":
                return self.is_lit(*tg[1:])
            ev = self.A.events.get(tg)
            if ev is not None:
                return self.event(ev)
            return TOP
        finally:
            self.busy.discard(tg)

    def returns(self, fid, truth):
        fr = self.A.frames.get(fid)
        if fr is None:
            return frozenset([frozenset([(mk("unkclosure", const(fid)), "Y")])])
        r = FALSEC
        for b, v in fr.retw.items():
            c = self.local(fid, b)
            if v.op == "ret" or any(m.op == "pushed" and m.a[1][0] == "def" for m in members(v)):
                r = disj(r, conj(c, self.bool_lit(v, truth, (fid, b))))
                continue
            for m in members(v):
                if m is (TRUE if truth else FALSE):
                    r = disj(r, c)
                elif m in (TRUE, FALSE):
                    continue
                else:
                    r = disj(r, conj(c, self.bool_lit(m, truth)))
        return r

    def keeps(self, tw):
        """when a take_while or map_while goes on"""
        return (self.returns_some if len(tw.a) > 1 else lambda i: self.returns(i, True))(int(tw.a[0].a[0]))

    def returns_some(self, fid, kind="O", pos=True):
        fr = self.A.frames.get(fid)
        if fr is None:
            return TOP
        r = FALSEC
        for b, v in fr.retw.items():
            c = self.local(fid, b)
            if v.op == "ret":
                r = disj(r, conj(c, self.is_lit(v, kind, pos)))
                continue
            for m in members(v):
                p = sign(m, kind)
                if p is None:
                    r = disj(r, conj(c, self.is_lit(m, kind, pos)))
                elif p == pos:
                    k = c
                    while m.op == "pushed":  # bool::then: there under its condition
                        if m.a[1][0] == "opt" and m.a[1][2] == "B":
                            k = conj(k, self.tagcond(m.a[1]))
                        m = m.a[0]
                    r = disj(r, k)
        return r

    def is_lit(self, x, kind, pos):
        if kind == "B":
            return self.bool_lit(x, pos)
        if x.op == "phi" and all(m.op == "pushed" and m.a[1][0] == "opt" and m.a[1][2] == "B" for m in x.a[0]):
            r = FALSEC
            for m in x.a[0]:  # bool::then: there exactly if the condition holds
                if (m.a[0].op == "none") != pos:
                    r = disj(r, self.tagcond(m.a[1]))
            return r
        if x.op == "ret":
            return self.returns_some(x.a[0], kind, pos)
        if x.op == "pushed":
            if is_next(x.a[1]):
                y = x.a[0]
                if pos:
                    return conj(self.pushconds(y), self.iterlit(x.a[1][1]))
                return frozenset([frozenset([(mk("iter", clean(x.a[1][1])), "N")])])
            c = self.tagcond(x.a[1]) if pos else TOP
            return conj(c, self.is_lit(x.a[0], kind, pos))
        if x.op == "try":
            return self.is_lit(x.a[1], x.a[0][0], pos)
        if x.op == "ofilter":
            if pos:
                return conj(self.is_lit(x.a[0], kind, True), self.bool_lit(x.a[1], True))
        if x.op == "phi":
            # presence decided by which member it is: unknown between members
            ps = {sign(m, kind) for m in x.a[0]}
            unk = [m for m in x.a[0] if sign(m, kind) is None]
            if not unk and len(ps) == 1:
                return TOP if (next(iter(ps)) == pos) else FALSEC
        s = sign(x, kind)
        if s is not None:
            return TOP if s == pos else FALSEC
        return frozenset([frozenset([(disc_atom(x, kind), "Y" if pos else "N")])])

    def discr_lit(self, x, adt, names, allnames):
        if names == allnames:
            return TOP
        al = adt_last(adt)
        if al in OPT:
            kind = {"Option": "O", "Result": "R", "ControlFlow": "R", "Poll": "P"}[al]
            if names <= POS:
                return self.is_lit(x, kind, True)
            if names <= NEG:
                return self.is_lit(x, kind, False)
            return TOP
        x = strip(x)
        if x.op == "ret":
            x = x.a[1]
        return frozenset([frozenset([(mk("variant", x), next(iter(names)) if len(names) == 1 else frozenset(names))])])

    def flag(self, v, truth, at):
        """a bool local with several assignments, used at a block: by the assignment that reaches the use"""
        ms = members(v)
        _, fid, _, local = ms[0].a[1]
        fr = self.A.frames[fid]
        g = self.graph(fid)
        use = at[1] if at and at[0] == fid else None
        uses = [use] if use is not None else [b for b in g["rets"]]
        S = g["pruned"] if all(u in g["pruned"] for u in uses) else g["succ"]
        order = [b for b in rpo(fr.fn) if b in S]
        pos = {b: i for i, b in enumerate(order)}
        defs = {m.a[1][2]: m.a[0] for m in ms}
        pred = {}
        for b, l in S.items():
            for x in l:
                if x in pos and pos[x] > pos[b]:
                    pred.setdefault(x, []).append(b)
        anc, st = set(), list(uses)
        while st:
            x = st.pop()
            if x not in anc:
                anc.add(x)
                st.extend(pred.get(x, []))
        unk = frozenset([frozenset([(mk("flag", const(fid), const(local)), "Y" if truth else "N")])])
        if not all(d in anc for d in defs):
            return unk
        B = set()
        for x in list(defs) + uses:
            B |= self.cd_branches(fid, x, S)
        D = {(order[0], None): TOP}
        r = FALSEC
        for b in order:
            if b not in anc:
                continue
            for d in [None] + list(defs):
                c = D.get((b, d))
                if c is None:
                    continue
                if b in uses and b not in defs and d is not None:
                    r = disj(r, conj(c, self.bool_lit(defs[d], truth, (fid, d))))
                o = b if b in defs else d
                if b in uses:
                    if b in defs:
                        r = disj(r, conj(c, self.bool_lit(defs[b], truth, (fid, b))))
                    if use is not None:
                        continue
                for x in set(S[b]):
                    if x in pos and pos[x] > pos[b] and x in anc:
                        e = conj(c, self.edge(fid, b, x) if b in B else TOP)
                        D[(x, o)] = disj(D[(x, o)], e) if (x, o) in D else e
        return r

    def bool_lit(self, v, truth, at=None):
        ms = members(v) if v.op != "ret" else ()
        if ms and all(m.op == "pushed" and m.a[1][0] == "def" for m in ms):
            if len({(m.a[1][1], m.a[1][3]) for m in ms}) == 1 and len({m.a[1][2] for m in ms}) == len(ms):
                if len(ms) == 1:
                    return self.bool_lit(ms[0].a[0], truth, (ms[0].a[1][1], ms[0].a[1][2]))
                k = ("flag", v, truth, at)
                if k not in self.gmemo:
                    self.gmemo[k] = FALSEC
                    self.gmemo[k] = self.flag(v, truth, at)
                return self.gmemo[k]
        if v.op == "phi" and any(m.op == "pushed" and m.a[1][0] in ("when", "unless", "opt") for m in v.a[0]):
            r = FALSEC
            for m in v.a[0]:
                r = disj(r, self.bool_lit(m, truth))
            return r
        if v.op == "pushed" and v.a[1][0] in ("when", "unless", "opt"):
            return conj(self.tagcond(v.a[1]), self.bool_lit(v.a[0], truth))
        if v.op == "pushed":
            return self.bool_lit(v.a[0], truth)
        if v.op == "ret":
            return self.returns(v.a[0], truth)
        if v is TRUE:
            return TOP if truth else FALSEC
        if v is FALSE:
            return FALSEC if truth else TOP
        if v.op == "un" and v.a[0] == "Not":
            return self.bool_lit(v.a[1], not truth)
        if v.op == "call" and v.a[0].split("::")[-1] in ("is_some_and", "is_ok_and", "is_none_or"):
            n = v.a[0].split("::")[-1]
            k = "R" if n == "is_ok_and" else "O"
            if truth == (n != "is_none_or"):
                return conj(self.is_lit(v.a[1][0], k, True), self.bool_lit(v.a[1][1], truth))
            return disj(self.is_lit(v.a[1][0], k, False), conj(self.is_lit(v.a[1][0], k, True), self.bool_lit(v.a[1][1], truth)))
        if v.op == "bin" and v.a[0] in ("bEq", "bAnd", "bOr"):
            o, x, y = v.a
            if o == "bEq":
                r = FALSEC
                for p in (True, False):
                    r = disj(r, conj(self.bool_lit(x, p, at), self.bool_lit(y, p == truth, at)))
                return r
            if (o == "bAnd") == truth:
                return conj(self.bool_lit(x, truth, at), self.bool_lit(y, truth, at))
            return disj(self.bool_lit(x, truth, at), self.bool_lit(y, truth, at))
        if v.op == "call" and v.a[0].split("::")[-1] in ("is_some", "is_none", "is_ok", "is_err") and len(v.a[1]) == 1:
            n = v.a[0].split("::")[-1]
            return self.is_lit(v.a[1][0], "O" if n in ("is_some", "is_none") else "R", truth == (n in ("is_some", "is_ok")))
        a, pol = bool_norm(v)
        if a.op == "ret":
            return self.returns(a.a[0], truth == pol)
        for term, lab in self.A.assume:
            if isinstance(lab, str) and (term is a or callable(term) and term(a)):
                return TOP if (lab == "Y") == (truth == pol) else FALSEC
        return frozenset([frozenset([(a, "Y" if truth == pol else "N")])])

    # ------------------------------------------------ whole condition
    def event(self, ev):
        return self.at(ev.fid, ev.block)

    def at(self, fid, block):
        c = self.local(fid, block)
        fr = self.A.frames[fid]
        while fr.parent is not None:
            if fr.hof:
                c = conj(c, self.hoflit(fr))
            c = conj(c, self.local(fr.parent.id, fr.site[0]))
            fr = fr.parent
        return c

    def hoflit(self, fr):
        h, it = fr.hof, fr.hofiter
        if h.startswith("iter.") and it is not None:
            return conj(self.pushconds(elem(it)), self.iterlit(it))
        if h == "bool.then" and it is not None:
            return self.bool_lit(it, True)
        if h.startswith("opt.") and it is not None:
            return self.is_lit(it, "O", True)
        if h in ("map_err", "or_else", "unwrap_or_else", "ok_or_else") and it is not None:
            return self.is_lit(it, "R", False)
        if h in ("call", "await", "fnptr"):
            return TOP
        p = h.split("::")[-1]
        if p in ("spawn_blocking", "spawn", "spawn_local", "block_in_place", "block_on", "catch_unwind", "execute", "with", "call_once", "get_or_init",
                 "new"):
            return TOP
        if p in ("or_insert_with", "or_insert_with_key", "and_modify"):
            return frozenset([frozenset([(mk("vacant", it) if it is not None else mk("vacant"), "Y" if p != "and_modify" else "N")])])
        return frozenset([frozenset([(mk("hof", p, it) if it is not None else mk("hof", p), "Y")])])

    # ------------------------------------------------ early loop exits
    def loops(self, fid, block):
        """natural loops (in the pruned graph) containing the block: [(header, body, exits)]
        where exits are edges leaving the loop"""
        g = self.graph(fid)
        S = g["pruned"] if block in g["normal"] else g["succ"]
        order = [b for b in rpo(self.A.frames[fid].fn) if b in S]
        pos = {b: i for i, b in enumerate(order)}
        res = {}
        for b, l in S.items():
            for h in l:
                if h in pos and pos[h] <= pos[b]:
                    body, st = {h}, [b]
                    pr = {}
                    for x, ll in S.items():
                        for y in ll:
                            pr.setdefault(y, []).append(x)
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(pr.get(x, []))
                    res.setdefault(h, set()).update(body)
        out = []
        for h, body in res.items():
            if block in body:
                ex = [(b, s) for b in body for s in S[b] if s not in body]
                out.append((h, body, ex))
        return out

    def early_exits(self, ev):
        """[(frame, literal DNF)] of loop exits other than iterator exhaustion, on the event's inline chain"""
        r = []
        fr = self.A.frames[ev.fid]
        blk = ev.block
        while fr is not None:
            for h, body, ex in self.loops(fr.id, blk):
                for b, s in ex:
                    l = self.edge(fr.id, b, s)
                    if l == TOP:
                        continue
                    if l == FALSEC:
                        continue
                    r.append((fr, b, l))
            if fr.parent is None:
                break
            blk = fr.site[0]
            fr = fr.parent
        return r


ITERS = {"optit", "map", "fmap", "filter", "takewhile", "skipwhile", "flat", "chain", "zip", "take", "skip", "rev", "enumerate", "keys", "values"}


def sign(m, kind):
    if m.op in ITERS:
        return True
    if m.op == "pushed":
        return None if is_next(m.a[1]) else sign(m.a[0], kind)
    if kind == "O":
        if m.op == "none":
            return False
        if m.op in ("agg", "c", "unit", "coll", "closure"):
            return True
    if kind == "R":
        if m.op == "err":
            return False
        if m.op in ("agg", "c", "unit", "coll", "closure", "none"):
            return True
    return None


def all_err(v):
    ms = members(v)
    return bool(ms) and all(m.op == "err" or m.op == "try" and False for m in ms)


def strip(t):
    while t.op in ("pushed",):
        t = t.a[0]
    return t


def clean(t, memo=None):
    """drop provenance tags everywhere"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.op == "pushed":
        r = clean(t.a[0], memo)
        if is_alt(t.a[1]):
            r = tag(r, t.a[1])
    elif t.op == "ret":
        r = clean(t.a[1], memo)
    elif t.op == "phi":
        r = phi([clean(x, memo) for x in t.a[0]])
    elif t.op == "agg":
        fs = tuple((k, clean(v, memo)) for k, v in t.a[2])
        e = eta(t.a[0], t.a[1], fs)
        r = e if e is not None else mk("agg", t.a[0], t.a[1], fs)
    elif t.op == "elem":
        r = elem(clean(t.a[0], memo))
        if r.op == "pushed":
            r = clean(r, memo)
    elif not any(y.op in ("pushed", "ret") for y in subterms(t)):
        r = t
    else:
        na = []
        for y in t.a:
            if isinstance(y, T):
                na.append(clean(y, memo))
            elif isinstance(y, tuple):
                na.append(tuple(clean(z, memo) if isinstance(z, T) else z for z in y))
            elif isinstance(y, frozenset):
                na.append(frozenset(clean(z, memo) if isinstance(z, T) else z for z in y))
            else:
                na.append(y)
        r = mk(t.op, *na)
    memo[t] = r
    return r


def is_alt(tg):
    return isinstance(tg, tuple) and len(tg) == 3 and tg[0] == "alt"


ALTID = {}


def altid(tg):
    if tg[1] not in ALTID:
        ALTID[tg[1]] = clean(tg[1])
    return ALTID[tg[1]]


def choice(tags):
    """which part of a chain each tag says the element comes from"""
    r = {}
    for tg in tags:
        if is_alt(tg):
            if r.setdefault(altid(tg), tg[2]) != tg[2]:
                return None
    return r


def consistent(tags):
    return choice(tags) is not None


def choose(t, ch, memo):
    """the term with the parts of chains fixed"""
    if t in memo:
        return memo[t]
    memo[t] = t
    r = t
    if t.op == "phi":
        ms = [choose(m, ch, memo) for m in t.a[0]]
        ms = [m for m in ms if m.op != "bot"]
        r = phi(ms) if ms else mk("bot")
    elif t.op == "pushed":
        x = choose(t.a[0], ch, memo)
        tg = t.a[1]
        if is_alt(tg) and altid(tg) in ch:
            r = x if ch[altid(tg)] == tg[2] else mk("bot")
        else:
            r = tag(x, tg)
    else:
        na, ch2 = [], False
        for y in t.a:
            if isinstance(y, T):
                z = choose(y, ch, memo)
            elif isinstance(y, tuple):
                z = tuple(choose(w, ch, memo) if isinstance(w, T) else tuple(choose(q, ch, memo) if isinstance(q, T) else q for q in w) if isinstance(w, tuple) else w for w in y)
            elif isinstance(y, frozenset):
                z = frozenset(choose(w, ch, memo) if isinstance(w, T) else w for w in y)
            else:
                z = y
            ch2 = ch2 or z is not y and z != y
            na.append(z)
        if ch2:
            r = mk(t.op, *na)
    memo[t] = r
    return r


def expand(t, limit=256):
    """phi-free alternatives of a term with the provenance tags each carries: [(term, frozenset(tags))]"""
    memo = {}

    def cross(acc, new, f):
        r = []
        for a, tg in acc:
            for y, t2 in new:
                t = tg | t2 if t2 - tg else tg
                if t is not tg and tg and not consistent(t):
                    continue
                r.append((f(a, y), t))
                if len(r) >= limit:
                    return r
        return r

    def go(x):
        if x in memo:
            return memo[x]
        memo[x] = [(x, frozenset())]
        if x.op == "pushed":
            r = [(y, tg | {x.a[1]}) for y, tg in go(x.a[0])]
            r = [(y, tg) for y, tg in r if consistent(tg)]
        elif x.op == "ret":
            r = go(x.a[1])
        elif x.op == "phi":
            r = []
            for y in sorted(x.a[0], key=lambda z: z.h):
                r += go(y)
        elif not any(y.op in ("pushed", "phi", "ret") for y in subterms(x)):
            r = [(x, frozenset())]
        elif x.op == "agg":
            r = [((), frozenset())]
            for k, v in x.a[2]:
                r = cross(r, go(v), lambda acc, y: acc + ((k, y),))
            rr = []
            for acc, tg in r:
                e = eta(x.a[0], x.a[1], acc)
                rr.append((e if e is not None else mk("agg", x.a[0], x.a[1], acc), tg))
            r = rr
        elif x.op in ("call",):
            r = [((), frozenset())]
            for v in x.a[1]:
                r = cross(r, go(v), lambda acc, y: acc + (y,))
            r = [(mk("call", x.a[0], acc), tg) for acc, tg in r]
        elif x.op in ("coll", "closure"):
            r = [(clean(x), frozenset())]
        else:
            idx = [i for i, y in enumerate(x.a) if isinstance(y, T)]
            r = [(x.a, frozenset())]
            for i in idx:
                r = cross(r, go(x.a[i]), lambda acc, y: acc[:i] + (y,) + acc[i + 1:])
            r = [(mk(x.op, *acc), tg) for acc, tg in r]
        out, seen = [], set()
        for y, tg in r:
            if y.op == "bot" or (y, tg) in seen:
                continue
            seen.add((y, tg))
            out.append((y, tg))
        memo[x] = out[:limit]
        return memo[x]
    return go(t)


def showc(d):
    if d == TOP:
        return "always"
    if not d:
        return "never"
    return " or ".join("(" + " and ".join(sorted(("" if l == "Y" else "not " if l == "N" else f"[{'/'.join(sorted(l)) if isinstance(l, frozenset) else l}] ") + show(a) for a, l in c)) + ")" for c in d)
