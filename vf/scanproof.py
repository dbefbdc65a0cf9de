"""Parser::execute against its contract: the scan of any text.

The searches are the points at which the scan is cut: the text splits into what was consumed (G) and the rest (R), which
the search splits into what precedes the match, the match, and what follows it.  The state before the second search,
generalised over G, R and the results so far, is the invariant; one arbitrary search, interpretation and the way to the
next search keep it.  extract() enters by its contract: any result, or an exception of the kind that means none."""
import time

import absres
import engine
import induct
import lang
import models
import rx
import spec
import strs
import sym
import vals
from engine import Ptr
from refproof import Piece, conds, elements, obj
from vals import B, Unsupported

NONEMPTY = lang.of_len(1, None)


class Parts:
    """where a state stands: text = consumed + rest, as leaves"""

    def __init__(self, G, R):
        self.G, self.R = tuple(G), tuple(R)


def n_of(ctx, ps):
    return strs.length(ctx, strs.Str(tuple(ps)))


class Places:
    """how the values of a scan depend on where it stands"""

    def relations(self, z, v, ren=None):
        return relations(self, z, v, ren)

    def value(self, s, r, old):
        """a value of that relation in a state at an arbitrary place"""
        P = s.ghost["scan"]
        val = {"R": P.R, "T": P.G + P.R, "G": P.G}
        if isinstance(old, strs.Str):
            return strs.Str(val[r[0]])
        return vals.add(n_of(s.ctx, val[r[0]]), r[1])

    def place(self, s):
        """an arbitrary place"""
        s.ghost.update(scan=Parts((self.leaf("consumed", lang.ALL),), (self.leaf("the rest", lang.ALL),)), called=1, given=None, ended=False)


class Scan(Places):
    def __init__(self, W, reader, cls, deadline, out):
        self.W, self.out, self.deadline, self.cls = W, out, deadline, cls
        vals.reset()
        self.L = absres.Layout(reader)
        self.e = e = W.engine()
        e.deadline = deadline
        e.cut.update(self.L.cuts())
        e.cut["std::regex_search"] = self.search
        e.cut["parser::%s::getPattern" % cls] = self.pattern
        e.cut["parser::%s::extract" % cls] = self.extract
        e.cut["string::substr"] = self.substr
        e.merge = False
        self.rx = models.Rx("contract", False)
        self.room = 4
        self.old = 0
        self.dropped = set()

    # ------------------------------------------------------------ callees by contract
    def pattern(self, e, st, a, name, params):
        e.contracts.add(name)
        o = e.obj(st, a[0], "write")
        e.put(st, o, e.offset(st, a[0]), 32, self.rx)
        return None

    def search(self, e, st, a, name, params):
        if not params.startswith("(string const&") or "match_results" not in params:
            raise Unsupported("another search")
        r = models.rxof(e, st, a[2])
        if r.pat != "contract":
            raise Unsupported("a search for another expression")
        if st.arrivals >= e.stop_at:
            st.done = ("at", "search")
            return engine.DEFER
        s = models.gets(e, st, a[0])
        P = st.ghost["scan"]
        if s.p != P.R:
            st.ghost["wrong"] = ("scan", "the text searched next is not what follows the last match")
            st.done = ("wrong",)
            return engine.DEFER
        k = st.arrivals
        ok = e.truth(st, B("bool", ("found", k)))
        st.arrivals += 1
        if ok:
            A = self.leaf("before match %d" % k, lang.ALL)
            M = self.leaf("match %d" % k, NONEMPTY)
            Z = self.leaf("after match %d" % k, lang.ALL)
            if len(P.R) != 1:
                raise Unsupported("the rest of the text")
            st.ctx.assume(vals.eq(n_of(st.ctx, P.R), n_of(st.ctx, (A, M, Z))))
            replace(st, P.R[0], (A, M, Z))
            st.ghost["scan"] = Parts(P.G, (A, M, Z))
            m = models.MatchVal((A, M, Z), {0: (1, 2)}, 1)
        else:
            m = models.MatchVal(P.R, {}, 1, ok=False)
            st.ghost["ended"] = True
        o = e.obj(st, a[1], "write")
        e.put(st, o, e.offset(st, a[1]), 32, m)
        return ok

    def leaf(self, nm, L):
        x = models._CUTS.get(("scan", nm))
        if x is None:
            x = models._CUTS[("scan", nm)] = vals.leaf(nm, L)
        return x

    def extract(self, e, st, a, name, params):
        e.contracts.add(name)
        P = st.ghost["scan"]
        wrong = None
        if st.ghost["called"] != st.arrivals - 1:
            wrong = "a match is interpreted twice or not at all"
        elif len(P.R) != 3:
            wrong = "an interpretation without a match"
        elif models.gets(e, st, a[2]).p != P.R or e.obj(st, a[3], "read").cells.get(e.offset(st, a[3])) is None:
            wrong = "the text given to the interpretation is not the text searched"
        else:
            m = models.matchof(e, st, a[3])
            if not m.ok or m.tx != P.R:
                wrong = "the match given to the interpretation is not the match found"
            elif a[4] != st.ghost["ref"] or e.load(st, a[4], ("i", 64)) != self.ticks:
                wrong = "the reference time given to the interpretation is another one"
        if wrong:
            st.ghost["wrong"] = ("scan", wrong)
            st.done = ("wrong",)
            return engine.DEFER
        if not self.hold(st.ctx, "position", "the position of a match is its place in the whole text",
                         vals.eq(e.sn(st, a[5], 64), vals.add(n_of(st.ctx, P.G), n_of(st.ctx, P.R[:1])))):
            raise engine.Dead()
        k = st.arrivals
        throws = e.truth(st, B("bool", ("no result", k)))
        kind = models.LOGIC
        if throws and e.truth(st, B("bool", ("no result by the library", k))):
            kind = models.OOR if e.truth(st, B("bool", ("out of range", k))) else models.INVARG
        st.ghost["called"] += 1
        if throws:
            st.ghost["given"] = None
            raise models.Throw(kind, "no result")
        s, h, d, ass = absres.result_of("found %d" % k, False)
        for c in ass:
            st.ctx.assume(c)
        self.L.write(st, e.obj(st, a[0], "write"), e.offset(st, a[0]), s, h, d)
        st.ghost["given"] = (s, h, d)
        return None

    def substr(self, e, st, a, name, params):
        """a part of a text: known where it begins at a piece, else some text"""
        s = models.gets(e, st, a[1])
        if s.lit() is not None:
            return models.string_substr(e, st, a, name, params)
        pos, n = e.un(st, a[2], 64), e.sn(st, a[3], 64)
        size = strs.length(st.ctx, s)
        if not e.truth(st, vals.le(pos, size)):
            raise models.Throw(models.OOR, "basic_string::substr")
        rest = isinstance(n, int) and n < 0 or st.ctx.decide(vals.le(size, vals.add(pos, n))) is True
        at = [k for k in range(len(s.p) + 1) if st.ctx.decide(vals.eq(n_of(st.ctx, s.p[:k]), pos)) is True]
        if at and rest:
            r = strs.mk(s.p[at[-1]:])
        elif at and any(st.ctx.decide(vals.eq(n_of(st.ctx, s.p[at[-1]:j]), n)) is True for j in range(at[-1], len(s.p) + 1)):
            j = next(j for j in range(at[-1], len(s.p) + 1) if st.ctx.decide(vals.eq(n_of(st.ctx, s.p[at[-1]:j]), n)) is True)
            r = strs.mk(s.p[at[-1]:j])
        elif rest:
            x = self.leaf("from %s of %r" % (vals.lkey(pos), s), lang.ALL)
            st.ctx.assume(vals.eq(n_of(st.ctx, (x,)), vals.add(size, vals.scale(pos, -1))))
            r = strs.mk([x])
        else:
            raise Unsupported("a part of the text")
        models.sets(e, st, a[0], r)
        return None

    # ------------------------------------------------------------ obligations
    def hold(self, ctx, kind, what, cond):
        n = len(self.out["failed"]), len(self.out["undecided"])
        (induct.check if self.dropped else induct.firm)(self.out, ctx, kind, what, cond, self.inputs)
        return n == (len(self.out["failed"]), len(self.out["undecided"]))

    def bad(self, ctx, kind, what):
        self.hold(ctx, kind, what, False)

    def inputs(self, ctx):
        import random
        import conform
        import parserproof
        import suites
        p = next(k for k, v in parserproof.CLASS.items() if v == self.cls)
        pool = conform.Pool(17)
        own = conform.phrases(p, pool, 200)
        r = pool.rnd
        out = []
        for _ in range(150):
            parts = []
            for _ in range(r.choice([1, 2, 3, 5, 9, 14])):
                parts += [r.choice(own) if r.random() < 0.75 else r.choice(suites.JUNK), r.choice(suites.GLUE)]
            out.append(("parse", p, pool.ref(), pool.case("".join(parts))))
        return out

    # ------------------------------------------------------------ running
    def start(self):
        st, this = obj(self.W, "parser::" + self.cls)
        name = "parser::%s::execute" % self.cls
        if name not in self.W.byshort:
            name = "parser::Parser::execute"
        if not st.ctx.pc:
            st.ctx = vals.Ctx()
        t = vals.leaf("the text", lang.ALL)
        tx = st.new(32, "heap", "text")
        tx.cells[0] = (32, strs.mk([t]))
        low = models.casing(self.e, st, strs.mk([t]), False)
        self.low = low
        from parserproof import ptime, CLASS
        ref = ptime(st, sym.sym_ref())
        st.heap[ref.o].kind = "const"
        self.ticks = st.heap[ref.o].cells[0][1]
        res = st.new(24, "heap", "results")
        self.res, self.tx = Ptr(res.id, 0), Ptr(tx.id, 0)
        st.ghost.update(scan=Parts((), low.p), called=0, ref=ref, given=None, ended=False, wrong=None)
        self.e.call(st, self.W.fn(name), [self.res, this, self.tx, ref])
        return st

    def run(self, st, n):
        """to the search after n more; yields states"""
        self.e.stop_at = n
        st.done = None
        for s in self.e.run_all(st):
            self.out["paths"] += 1
            if s.done[0] == "wrong":
                self.bad(s.ctx, *s.ghost["wrong"])
            elif s.done[0] == "throw":
                # execute() may rely on extract() throwing fewer kinds than its contract allows
                if s.done[1].type != models.OOR:
                    self.dropped.add("kind of exception")
                self.bad(s.ctx, "exception", "the scan throws")
            else:
                yield s

    def emitted(self, s, vec, base):
        """the results given since base (pointer to the first of them)"""
        b, f = (self.e.load(s, Ptr(vec.o, vals.add(vec.f, k)), ("p",)) for k in (0, 8))
        if base is None or isinstance(base, int):
            return elements(self.e, s, self.L, vec)[base or 0:]
        if not (isinstance(f, Ptr) and f.o == base.o):
            raise Unsupported("the results")
        k = vals.add(f.f, vals.scale(base.f, -1))
        if not isinstance(k, int) or k % self.L.size or k < 0:
            raise Unsupported("the number of results")
        return [Ptr(base.o, base.f + i) for i in range(0, k, self.L.size)]

    def step_ok(self, s, vec, base):
        """what one interpretation adds to the results"""
        got = [self.L.view(self.e, s, p) for p in self.emitted(s, vec, base)]
        want = None
        if s.ghost["given"] is not None:
            a, h, d = s.ghost["given"]

            def view(ctx):
                r = spec.Res(h.idx, Piece(h.text, ctx), a.comps())
                r.tags = absres.Tags(zip(spec.TAGS, h.tags))
                r.end = d.comps() if bool(h.end) else None
                return r if spec.possible(vals.SymCal(), r) else None
            for want, c in sym.explore(s.ctx, view):
                self.compare(c, want, got)
        else:
            self.compare(s.ctx, None, got)

    def compare(self, c, want, got):
        if len(got) != (want is not None):
            self.bad(c, "result", "a possible interpretation is not reported exactly once, or an impossible one is")
            return
        induct.count(self.out, "result")
        if want is not None:
            for what, cond, soft in conds(c, want, got[0]):
                if cond is None:
                    self.out["undecided"].append("result: %s" % what)
                else:
                    self.hold(c, "result", "reported result: %s" % what, cond)

    def text_ok(self, s):
        v = models.gets(self.e, s, self.tx)
        self.hold(s.ctx, "text", "the text holds its lower case", v.p == s.ghost["scan"].G + s.ghost["scan"].R)


def replace(st, x, ps):
    """the text x is known to be ps"""
    def sub(v):
        if isinstance(v, strs.Str) and x in v.p:
            return strs.Str(tuple(z for y in v.p for z in (ps if y == x else (y,))))
        if isinstance(v, models.MatchVal) and x in v.tx:
            i = v.tx.index(x)
            at = lambda k: k if k <= i else k + len(ps) - 1
            return models.MatchVal(v.tx[:i] + tuple(ps) + v.tx[i + 1:], {g: (at(a), at(b)) for g, (a, b) in v.g.items()}, v.n, v.free, v.ok)
        return v
    for oid, o in list(st.heap.items()):
        if o.alive and any(sub(v) is not v for _, v in o.cells.values()):
            o = st.w(oid)
            for k, (n, v) in list(o.cells.items()):
                o.cells[k] = (n, sub(v))


@induct.partly
def scan_task(W, reader, cls, kinds, deadline, out):
    """execute() of an arbitrary text; kinds: of obligations asked for, None for all"""
    S = Scan(W, reader, cls, deadline, out)
    e = S.e
    st = S.start()
    out.update(induct.result(e, kinds))
    first = []
    for s in S.run(st, 0):
        if s.done[0] != "at":
            S.bad(s.ctx, "scan", "the scan ends without a search")
            continue
        first.append(s)
    second = []
    for s in first:
        for z in S.run(s, 1):
            finish(S, z, None, None, second)
    empty_match(S)
    groups = {}
    for s in second:
        groups.setdefault(site(s), []).append(s)
    seen = set()
    work = list(groups)
    rounds = 0
    while work:
        k = work.pop()
        while True:
            rounds += 1
            if rounds > 12:
                raise Unsupported("no invariant of the scan was found")
            n = len(out["failed"]), len(out["undecided"])
            s, vec, base = generalise(S, groups[k])
            s0 = s.fork()
            S.last = []
            more = []
            for z in S.run(s, 2):
                finish(S, z, vec, base, more)
            if len(out["failed"]) > n[0]:
                break
            new = [z for z in more if site(z) != k and site(z) not in groups]
            for z in new:
                groups.setdefault(site(z), []).append(z)
                if site(z) not in work:
                    work.append(site(z))
            if not keeps(S, s0, [z for z in more if site(z) == k], vec):
                groups[k] = groups[k] + [z for z in more if site(z) == k]
                continue
            break
    if e.unsupported or out["undecided"]:
        unroll(S, second)
    out["undecided"] += e.unsupported


def unroll(S, states):
    """no invariant: the first matches one by one, every state of which occurs"""
    S.dropped.clear()
    for n in (2, 3):
        more = []
        for z in states:
            v = z.ghost["vec"]
            k = len(S.emitted(z, v, 0))
            for y in S.run(z.fork(), n):
                finish(S, y, v, k, more)
        states = more


def site(s):
    return tuple((f.fn.name, f.lab, f.ip) for f in s.frames)


def finish(S, z, vec, base, more):
    """a state at the next search or at the end"""
    S.text_ok(z)
    v = vec or S.res
    if z.done[0] == "at":
        if z.ghost["called"] != z.arrivals:
            S.bad(z.ctx, "scan", "a match is not interpreted")
            return
        G, R = z.ghost["scan"].G + z.ghost["scan"].R[:2], z.ghost["scan"].R[2:]
        z.ghost["scan"] = Parts(G, R)
        if vec is None:
            vec = find_vector(S, z)
        z.ghost["vec"] = vec
        S.step_ok(z, vec, base)
        more.append(z)
        return
    # returned
    if not z.ghost["ended"]:
        S.bad(z.ctx, "scan", "the scan ends before the text does")
        return
    if base is None:
        S.hold(z.ctx, "result", "no match gives no results", not S.emitted(z, S.res, None))
        return
    b = S.e.load(z, S.res, ("p",))
    if not isinstance(base, int):
        S.hold(z.ctx, "result", "the results before are kept", same_value(b, S.begin))
    S.hold(z.ctx, "result", "no match adds no results", not S.emitted(z, S.res, base))


def find_vector(S, z):
    def cells(p):
        o = z.heap[p.o]
        return o.alive and all(k + p.f in o.cells and isinstance(o.cells[k + p.f][1], Ptr) for k in (0, 8, 16))
    if cells(S.res):
        return S.res
    found = [Ptr(i, 0) for f in z.frames for i in f.allocas if z.heap[i].size == 24 and cells(Ptr(i, 0))]
    if len(found) != 1:
        raise Unsupported("the list of results was not found")
    return found[0]


# ------------------------------------------------------------------------ the invariant
def renaming(first, z):
    """the locals of z by the names they have in first"""
    fs = list(zip(first.frames, z.frames))
    if any(len(f.allocas) != len(g.allocas) for f, g in fs):
        raise Unsupported("locals of the scan")
    return {b: a for f, g in fs for a, b in zip(f.allocas, g.allocas)}


def relations(S, z, v, ren=None):
    if ren and isinstance(v, Ptr) and v.o in ren:
        v = Ptr(ren[v.o], v.f)
    P = z.ghost["scan"]
    sides = (("R", P.R), ("T", P.G + P.R), ("G", P.G))
    if isinstance(v, strs.Str):
        return [(k,) for k, ps in sides if v.p == ps] + [("=", v)]
    if isinstance(v, (int, vals.Lin)) and not isinstance(v, bool):
        out = []
        for k, ps in sides:
            d = vals.add(v, vals.scale(n_of(z.ctx, ps), -1))
            if isinstance(d, int):
                out.append((k, d))
        return out + [("=", v)]
    if isinstance(v, (models.MatchVal, engine.Mixed)):
        return [("any",)]
    if isinstance(v, (absres.AComp, absres.AHead)):
        return [("=", v), ("date" if isinstance(v, absres.AComp) else "head",)]
    return [("=", v)]


def same_value(x, y):
    if x is y:
        return True
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return x.o == y.o and absres.same(x.f, y.f)
    if isinstance(x, (int, vals.Lin)) or isinstance(y, (int, vals.Lin)):
        return absres.same(x, y)
    return type(x) is type(y) and x == y


def same_relation(a, b):
    return a[0] == b[0] and len(a) == len(b) and all(same_value(x, y) for x, y in zip(a[1:], b[1:]))


def common(S, group):
    """{cell: relation that holds in all states}"""
    first = group[0]
    rens = [renaming(first, z) for z in group]
    vec = first.ghost["vec"]
    mine = {(vec.o, vec.f + k) for k in (0, 8, 16)}
    if any(ren.get(z.ghost["vec"].o, z.ghost["vec"].o) != vec.o or z.ghost["vec"].f != vec.f for z, ren in zip(group, rens)):
        raise Unsupported("the list of results moves")
    out = {}
    init = S.W.init.heap
    for oid, o in first.heap.items():
        if init.get(oid) is o or not o.alive or o.kind in ("global", "const", "list"):
            continue
        its = []
        for z, ren in zip(group, rens):
            x = z.heap.get({v: k for k, v in ren.items()}.get(oid, oid))
            if x is None or not x.alive:
                break
            its.append(x)
        if len(its) < len(group):
            continue
        for k, (n, v) in o.cells.items():
            if (oid, k) in mine:
                continue
            rs = S.relations(first, v)
            for z, ren, x in zip(group, rens, its):
                c = x.cells.get(k)
                zs = S.relations(z, c[1], ren) if c is not None and c[0] == n else []
                rs = [r for r in rs if any(same_relation(r, q) for q in zs)]
            out[oid, k] = (n, rs[0] if rs else None)
    for i, f in enumerate(first.frames):
        for r, v in f.regs.items():
            rs = S.relations(first, v)
            for z, ren in zip(group, rens):
                zs = S.relations(z, z.frames[i].regs[r], ren) if r in z.frames[i].regs else []
                rs = [x for x in rs if any(same_relation(x, q) for q in zs)]
            out["reg", i, r] = (0, rs[0] if rs else None)
    return out


def generalise(S, group):
    """an arbitrary state at the search, of which the states of the group are instances"""
    s = arbitrary(S, group)
    vec = s.ghost["vec"]
    out = s.new(S.room * S.L.size, "heap", "results so far")
    S.begin = Ptr(out.id, vals.scale(vals.var("results so far", 0, 1 << 20), -S.L.size))
    base = Ptr(out.id, 0)
    o = s.w(vec.o)
    for k, p in ((0, S.begin), (8, base), (16, Ptr(out.id, S.room * S.L.size))):
        o.cells[vec.f + k] = (8, p)
    return s, vec, base


def arbitrary(S, group):
    """a state that agrees with those of the group in the relations they share, and is arbitrary otherwise"""
    inv = common(S, group)
    s = group[0].fork()
    s.done = None
    s.ctx = vals.Ctx()
    s.log, s.trail = [], []
    S.inv = inv
    s.arrivals = 1
    s.ghost["vec"] = group[0].ghost["vec"]
    S.place(s)

    def of(r, old):
        if r is None or r[0] == "any":
            if r is None and not isinstance(old, (strs.Str, engine.Mixed, engine.Undef)):
                S.dropped.add(str(old))
            return engine.Mixed()
        if r[0] == "=":
            return r[1]
        if r[0] in ("date", "head"):
            S.old += 1
            a, h, d, _ = absres.result_of("old %d" % S.old, False)
            return a if r[0] == "date" else h
        return S.value(s, r, old)
    S.dropped.clear()
    keep = {oid for oid, *_ in inv if oid != "reg"}
    for oid in keep:
        o = s.w(oid)
        for k, (n, v) in list(o.cells.items()):
            if (oid, k) in inv:
                o.cells[k] = (n, of(inv[oid, k][1], v))
    for i, f in enumerate(s.frames):
        for r, v in list(f.regs.items()):
            f.regs[r] = of(inv["reg", i, r][1], v)
    return s


def keeps(S, s0, more, vec):
    for z in more:
        if not same_value(S.e.load(z, vec, ("p",)), S.begin):
            S.bad(z.ctx, "result", "the results before are not kept")
    return kept(S, s0, more)


def kept(S, s0, more):
    """the states one step later are instances of the invariant"""
    inv = S.inv
    for z in more:
        ren = renaming(s0, z)
        back = {v: k for k, v in ren.items()}
        for key, (n, r) in inv.items():
            if r is None or r[0] == "any":
                continue
            if key[0] == "reg":
                v = z.frames[key[1]].regs.get(key[2], engine.Mixed())
            else:
                o = z.heap.get(back.get(key[0], key[0]))
                c = o.cells.get(key[1]) if o is not None else None
                v = c[1] if c is not None and c[0] == n else engine.Mixed()
            if not any(same_relation(r, q) for q in S.relations(z, v, ren)):
                return False
    induct.count(S.out, "invariant", len(more))
    return True


def empty_match(S):
    st, this = S.W.parser("parser::" + S.cls)
    r = S.W.pattern(st, this, "parser::" + S.cls)
    L = lang.from_ast(rx.strip_groups(rx.parse(r.pat, r.icase)[0]))
    S.hold(st.ctx, "termination", "a match is never empty", "" not in L)
