"""Refiner::refine against its contract for lists of any length: the loop over the results is cut at its head.

Where the loop stands is the number of results consumed so far.  The states at the second arrival at the head, generalised
over that number, over the results that remain and over the results given so far, are the invariant; one iteration over
arbitrary results keeps it and does what one step of the contract does.  The results that remain are a window: up to three,
or more of which the first few are looked at."""
import itertools
import time

import absres
import engine
import induct
import models
import refproof
import scanproof
import spec
import strs
import sym
import vals
from absres import AComp, AHead
from engine import Ptr
from refproof import Given, Slice, conds, obj, vector
from spec import TAGS
from vals import Unsupported

WINDOW = 4                        # results looked at when there are at least so many
MANY = 1 << 20


class Step:
    """one step of a contract: (results given, the ghost after it, how many results it consumed)"""

    def __init__(self, which, first, in_place, step, rest, looks=1):
        self.which, self.first, self.in_place, self.step, self.rest, self.looks = which, first, in_place, step, rest, looks


def overlap_rest(text, prev, rs):
    out = []
    for r in rs:
        done, prev = spec.overlap_step(prev, r)
        if done is not None:
            out.append(done)
    return out + ([] if spec.nothing(prev) else [prev])


def overlap_step(text, prev, rs):
    done, prev = spec.overlap_step(prev, rs[0])
    return [done] if done is not None else [], prev, 1


def pairs(merge):
    def step(text, prev, rs, *combine):
        r, k = spec.pair_step(rs[0], rs[1] if len(rs) > 1 else None, merge(vals.SymCal(), text, *combine))
        return [r], None, k

    def rest(text, prev, rs, *combine):
        return spec.pairwise(rs, merge(vals.SymCal(), text, *combine))
    return step, rest


MERGE = {"datetime": "ENMergeDateAndTime::mergeResult"}       # callees by contract: the merge of two results (merge_task)


STEPS = {"overlap": Step("overlap", 1, False, overlap_step, overlap_rest),
         "datetime": Step("datetime", 0, False, *pairs(spec.datetime_merge), looks=3),
         "range": Step("range", 0, False, *pairs(spec.range_merge), looks=3),
         "timezone": Step("timezone", 0, True, lambda text, prev, rs: ([spec.timezone_of(text, rs[0].copy())], None, 1),
                          lambda text, prev, rs: spec.timezone(text, rs))}


class Window:
    """the results that remain: some of them, and how many there are"""

    def __init__(self, parts, d):
        self.parts, self.d = parts, d


class Loop:
    def __init__(self, W, reader, which, out, deadline):
        self.W, self.out, self.which, self.deadline = W, out, which, deadline
        self.S = STEPS[which]
        self.e, self.L, self.w = refproof.fresh(W, reader, deadline)
        self.room = 4
        self.old = 0
        self.dropped = set()
        self.inv = None
        self.base = False
        self.cls = refproof.CLASS[which]
        self.merge = MERGE.get(which)
        if self.merge not in W.byshort:
            self.merge = None
        else:
            self.e.cut[self.merge] = self.merged

    # ------------------------------------------------------------ the merge of two results by its contract
    def merged(self, e, st, a, name, params):
        e.contracts.add(name)
        if not params.startswith("(string"):
            raise Unsupported("parameters of %s" % name)
        if models.gets(e, st, a[2]).p != (self.w.leaf,):
            raise Unsupported("a merge within another text")
        ks = []
        for p in a[3:5]:
            s, h, d = (self.L.cell(e, st, self.L.at(p, f), c)[2] for f, c in ((self.L.start, AComp), (self.L.head, AHead), (self.L.endd, AComp)))
            own = [k for k, (x, y, z) in enumerate(st.ghost["win"].parts) if k >= st.ghost["g"] and s == x and same_head(st.ctx, h, y) and
                   (d == z or y.end is False or st.ctx.decide(y.end) is False)]
            if not own:
                raise Unsupported("a merge of other results")
            ks.append(own[0])
        s, h, d, _ = absres.result_of(("merged", *ks), False)
        self.L.write(st, e.obj(st, a[0], "write"), e.offset(st, a[0]), s, h, d)
        return None

    def combine(self, ctx, g):
        """the same merge in the contract; results by their places in what remains"""
        if not self.merge:
            return []
        return [lambda cal, text, a, b: views(ctx, [(-2, absres.result_of(("merged", g + a.src, g + b.src), False)[:3])])[0]]

    # ------------------------------------------------------------ obligations
    def hold(self, ctx, kind, what, cond, soft=False):
        f = induct.firm if self.base and kind == "exception" and not soft and not self.merge else induct.check
        f(self.out, ctx, kind, what, cond, self.inputs)
        if time.time() > self.deadline:
            raise Unsupported("time limit")

    def bad(self, ctx, kind, what):
        self.hold(ctx, kind, what, False)

    def inputs(self, ctx):
        return refproof.inputs(self.which, self.given, ctx)

    # ------------------------------------------------------------ where a state stands
    def relations(self, z, v, ren=None):
        if ren and isinstance(v, Ptr) and v.o in ren:
            v = Ptr(ren[v.o], v.f)
        G = z.ghost
        size = self.L.size
        if isinstance(v, Ptr) and v.o == self.arr:
            out = []
            for k, at in (("at", G["g"]), ("fin", vals.add(G["g"], G["d"])), ("begin", vals.scale(G["j"], -1))):
                c = vals.add(v.f, vals.scale(at, -size))
                if isinstance(c, int):
                    out.append((k, c))
            return out + [("=", v)]
        if isinstance(v, (int, vals.Lin)) and not isinstance(v, bool):
            out = []
            here = vals.add(G["j"], G["g"])
            for k, at in (("pos", here), ("cnt", vals.add(here, G["d"])), ("left", G["d"])):
                c = vals.add(v, vals.scale(at, -1))
                if isinstance(c, int):
                    out.append((k, c))
            return out + [("=", v)]
        if isinstance(v, (AComp, AHead)):
            out = []
            for nm, (s, h, d) in self.named(z):
                none = z.ctx.decide(h.end) is False if isinstance(h.end, vals.B) else not h.end
                if isinstance(v, AHead):
                    if same_head(z.ctx, v, h):
                        out.append((nm, "head"))
                    continue
                if v == s:
                    out.append((nm, "start"))
                if v == d or none:
                    out.append((nm, "end"))
            return out + [("=", v), ("date" if isinstance(v, AComp) else "head",)]
        if isinstance(v, (models.MatchVal, engine.Mixed)):
            return [("any",)]
        return [("=", v)]

    def named(self, z):
        out = [(("ghost",), z.ghost["prev"])] if z.ghost["prev"] is not None else []
        return out + [(("elem", k - z.ghost["g"]), p) for k, p in enumerate(z.ghost["win"].parts) if k >= z.ghost["g"]]

    def value(self, s, r, old):
        G, size = s.ghost, self.L.size
        if r[0] in ("at", "fin", "begin"):
            at = {"at": 0, "fin": G["d"], "begin": vals.scale(G["j"], -1)}[r[0]]
            return Ptr(self.arr, vals.add(vals.scale(at, size), r[1]))
        if r[0] in ("pos", "cnt", "left"):
            return vals.add({"pos": G["j"], "cnt": vals.add(G["j"], G["d"]), "left": G["d"]}[r[0]], r[1])
        parts = dict(self.named(s)).get(r[0])
        if parts is None:                            # a result that is not there: never looked at, or the invariant is lost
            return engine.Mixed()
        a, h, d = parts
        if r[1] == "head":
            return h
        if r[1] == "start":
            return a
        return d                                     # without an end it is never looked at

    def place(self, s):
        """the start of a window of n results, any results before it"""
        n, j = self.n, vals.var("results before", 0, MANY)
        fresh(self, s, n, "w%s" % (n,), j)
        if self.S.first:
            (p,), ass = some(["ghost"], self.possible)
            for c in ass:
                s.ctx.assume(c)
            a, h, d = p
            if self.win:
                s.ctx.assume(vals.le(h.idx, self.win[0][1].idx))
            if self.which not in refproof.ANYWHERE:
                s.ctx.assume(vals.le(h.idx + strs.length(s.ctx, h.text), self.w.size(s.ctx)))
            s.ghost["prev"] = p
            self.given = Like(self, [p] + self.win)

    possible = property(lambda self: self.which in ("datetime", "range"))

    # ------------------------------------------------------------ running
    def run(self, st, n):
        e = self.e
        e.stop_at = n
        st.done = None
        for s in e.run_all(st):
            self.out["paths"] += 1
            if s.done[0] == "throw":
                self.bad(s.ctx, "exception", "%s::refine throws" % self.cls)
            else:
                yield s

    def emitted(self, s, vec, base):
        return [] if self.S.in_place else scanproof.Scan.emitted(self, s, vec, base)

    def window_cells(self, st, win, n):
        """the array holds these results from offset 0"""
        arr = st.w(self.arr)
        arr.cells = {}
        arr.size = (len(win) if isinstance(n, int) else WINDOW) * self.L.size
        for k, (s, h, d) in enumerate(win):
            self.L.write(st, arr, k * self.L.size, s, h, d)


class Like:
    """what refproof.inputs asks of a list"""

    def __init__(self, L, rs):
        self.rs, self.w = rs, L.w


def same_head(ctx, v, h):
    if not (absres.same(v.idx, h.idx) and v.text == h.text and all(absres.same(a, b) for a, b in zip(v.tags, h.tags))):
        return False
    if absres.same(v.end, h.end):
        return True
    return isinstance(v.end, bool) and isinstance(h.end, vals.B) and ctx.decide(h.end) is v.end


def some(names, possible):
    out, ass = [], []
    for nm in names:
        s, h, d, a = absres.result_of(nm, possible)
        out.append((s, h, d))
        ass += a
    return out, ass


def fresh(S, st, n, tag, j):
    """a window of n results (n None: at least WINDOW)"""
    k = WINDOW if n is None else n
    win, ass = some(["%s %d" % (tag, i) for i in range(k)], S.possible)
    for a, h, d in win if S.which not in refproof.ANYWHERE else ():
        ass.append(vals.le(h.idx + strs.length(st.ctx, h.text), S.w.size(st.ctx)))
    for (_, h, _), (_, g, _) in zip(win, win[1:]) if S.which != "timezone" else ():
        ass.append(vals.le(h.idx, g.idx) if S.which == "overlap" else vals.le(h.idx + strs.length(st.ctx, h.text), g.idx))
    for c in ass:
        st.ctx.assume(c)
    d = vals.var("results left", WINDOW, MANY) if n is None else n
    S.window_cells(st, win, d)
    S.win = win
    st.ghost.update(win=Window(win, d), d=d, g=0, j=j, prev=None, n=n)
    S.given = Like(S, win)


def views(ctx, parts):
    out = []
    for k, (s, h, d) in parts:
        r = spec.Res(h.idx, refproof.Piece(h.text, ctx), s.comps())
        r.tags = absres.Tags(zip(TAGS, h.tags))
        r.tags.copy = lambda t=r.tags: refproof.copytags(t)
        r.end = d.comps() if bool(h.end) else None
        r.src = k
        out.append(r)
    return out


# ------------------------------------------------------------------------ one step
def contract(S, z, rest):
    """the contract's step (or all that remains) from where z stood: [(given, src of the ghost, consumed, context)]"""
    G = z.ghost
    win = G["win"].parts[G["g"]:]

    def go(ctx):
        rs = views(ctx, [(k, p) for k, p in enumerate(win)])
        prev = views(ctx, [(-1, G["prev"])])[0] if G["prev"] is not None else None
        text = Slice(S.w, ctx)
        more = S.combine(ctx, G["g"])
        if rest:
            return S.S.rest(text, prev, rs, *more), None, 0
        return S.S.step(text, prev, rs, *more)
    for x, c in sym.explore(z.ctx, go):
        if x in ("none", "open"):
            continue
        given, prev, k = x
        yield given, prev, k, c


def compare(S, z, c, want, got):
    if len(want) != len(got):
        S.bad(c, "length", "%d results are given, expected %d" % (len(got), len(want)))
        return
    induct.count(S.out, "length")
    for a, b in zip(want, got):
        for what, cond, soft in conds(c, a, b):
            S.hold(c, "result", "a result given: %s" % what, False if cond is None else cond, cond is None)


def stepped(S, z, vec, base):
    """a state at the head again: what the step gave; yields the states where it stands now"""
    G = z.ghost
    win = G["win"].parts[G["g"]:]
    if not win:
        S.bad(z.ctx, "loop", "the loop goes on after the last result")
        return
    if S.S.in_place:
        got = None
    else:
        if vec is None:
            vec = find_vector(S, z)
        got = [S.L.view(S.e, z, p) for p in S.emitted(z, vec, base)]
    for want, prev, k, c in contract(S, z, False):
        y = z.fork()
        y.ctx = c
        if S.S.in_place:
            got = [S.L.view(S.e, y, Ptr(S.arr, (G["g"] + i) * S.L.size)) for i in range(k)]
        compare(S, y, c, want, got)
        p = None
        if prev is not None:
            p = G["prev"] if prev.src < 0 else win[prev.src]
        y.ghost.update(g=G["g"] + k, d=vals.add(G["d"], -k), prev=p, vec=vec or Ptr(S.arr, 1))
        kept_window(S, y, c)
        yield y


def kept_window(S, y, c):
    """the results not looked at yet are as they were"""
    G = y.ghost
    o = y.heap[S.arr]
    ok, seen = True, set()
    for k, (s, h, d) in enumerate(G["win"].parts):
        f = k * S.L.size
        seen |= {f + x for x in (S.L.start, S.L.head, S.L.endd)}
        if k >= G["g"]:
            at = [o.cells.get(f + x, (0, None))[1] for x in (S.L.start, S.L.head, S.L.endd)]
            ok = ok and at[0] == s and at[1] == h and at[2] == d
    S.hold(c, "unchanged", "only the results of this step are changed", ok and not set(o.cells) - seen, True)


def find_vector(S, z):
    def cells(p):
        o = z.heap[p.o]
        return o.alive and all(k + p.f in o.cells and isinstance(o.cells[k + p.f][1], Ptr) for k in (0, 8, 16)) and o.cells[p.f][1].o != S.arr
    own = [S.res] if cells(S.res) else [Ptr(i, 0) for f in z.frames for i in f.allocas if z.heap[i].size == 24 and cells(Ptr(i, 0))]
    if len(own) != 1:
        raise Unsupported("the list of results was not found")
    return own[0]


def returned(S, z, base):
    """the end of the loop: what is left to give"""
    z.frames = []
    G = z.ghost
    if G["n"] is None:
        S.bad(z.ctx, "loop", "the loop ends before the last result")
        return
    if S.S.in_place:
        b, f = (S.e.load(z, Ptr(S.res.o, k), ("p",)) for k in (0, 8))
        ok = all(isinstance(p, Ptr) and p.o == S.arr for p in (b, f))
        S.hold(z.ctx, "result", "the list given is the list", ok and absres.same(b.f, vals.scale(G["j"], -S.L.size)) and
               absres.same(f.f, vals.scale(vals.add(G["g"], G["d"]), S.L.size)))
        got = [S.L.view(S.e, z, Ptr(S.arr, k * S.L.size)) for k in range(G["g"], len(G["win"].parts))]
    else:
        if isinstance(base, Ptr):
            b = S.e.load(z, S.res, ("p",))
            S.hold(z.ctx, "result", "the results before are kept", scanproof.same_value(b, S.begin))
        got = [S.L.view(S.e, z, p) for p in S.emitted(z, S.res, base)]
    for want, _, _, c in contract(S, z, True):
        compare(S, z, c, want, got)


# ------------------------------------------------------------------------ the proof
def outer_heads(fn):
    """heads of the loops that are in no other loop"""
    heads = engine.loop_heads(fn)
    succ = engine.successors(fn)
    pred = {}
    for a, bs in succ.items():
        for b in bs:
            pred.setdefault(b, set()).add(a)

    def reach(x):
        seen, todo = set(), list(succ[x])
        while todo:
            y = todo.pop()
            if y not in seen:
                seen.add(y)
                todo += succ[y]
        return seen
    loops = {}
    for h in heads:
        r = reach(h)
        loops[h] = {x for x in r if h in reach(x)} | {h}
    return [h for h in heads if not any(h in loops[g] and g != h and loops[h] < loops[g] for g in heads)]


def prepared(S):
    """refine() before its list is known"""
    st, this = obj(S.W, S.cls)
    tx = st.new(32, "heap", "text")
    tx.cells[0] = (32, S.w.s())
    S.arr = st.new(S.L.size * WINDOW, "list", "elements").id
    S.src = Ptr(st.new(24, "heap", "list").id, 0)
    res = st.new(24, "heap", "refined list")
    res.cells = {}
    S.res = Ptr(res.id, 0)
    fn = S.W.fn(S.cls + "::refine")
    S.e.call(st, fn, [S.res, this, S.src, Ptr(tx.id, 0)])
    heads = outer_heads(S.W.m.funcs[fn].parse())
    if len(heads) != 1:
        raise Unsupported("%d loops over the results" % len(heads))
    S.e.stop = (fn, heads[0])
    return st


def begin(S, st, n):
    """refine() of a list of n results, or of at least WINDOW"""
    st = st.fork()
    fresh(S, st, n, "r%s" % (n,), 0)
    p = lambda k: Ptr(S.arr, vals.scale(k, S.L.size))
    d = st.ghost["d"]
    src = st.w(S.src.o)
    src.cells[0], src.cells[8], src.cells[16] = (8, p(0)), (8, p(d)), (8, p(d))
    return st


def kind(z):
    """the site, and whether results remain"""
    d = z.ghost["d"]
    return scanproof.site(z), not (isinstance(d, int) and d == 0)


@induct.partly
def loop_task(W, reader, args, deadline, out):
    which, = args
    S = Loop(W, reader, which, out, deadline)
    e = S.e
    out.update(induct.result(e))
    low = 1 if S.S.in_place else 2
    steps(S, prepared(S), low)
    out["undecided"] += e.unsupported


def steps(S, st0, low):
    """the invariant of the loop, and each iteration one step of the contract"""
    e, out = S.e, S.out
    first = []
    S.base = True
    for n in list(range(low, WINDOW)) + [None]:
        st = begin(S, st0, n)
        for z in S.run(st, 1):
            if z.done[0] == "ret":
                returned(S, z, None)
                continue
            if S.S.first:
                z.ghost.update(prev=z.ghost["win"].parts[0], g=1, d=vals.add(z.ghost["d"], -1))
            first.append((z, S.win))
    second = []
    for z, win in first:
        S.given = Like(S, win)
        for y in S.run(z, 2):
            if y.done[0] == "ret":
                returned(S, y, None)
            else:
                second += [(x, win) for x in stepped(S, y, None, None)]
    for z, win in list(second):                      # how often it ran and where it stands differ
        if z.ghost["n"] is not None or z.ghost["g"] + S.S.looks <= WINDOW:
            S.given = Like(S, win)
            for y in S.run(z.fork(), 3):
                if y.done[0] == "ret":
                    returned(S, y, len(S.emitted(z, z.ghost["vec"], 0)))
                else:
                    second += [(x, win) for x in stepped(S, y, z.ghost["vec"], len(S.emitted(z, z.ghost["vec"], 0)))]
    second = [z for z, _ in second]
    S.base = False
    groups, invs = {}, {}
    for z in second:
        groups.setdefault(kind(z), []).append(z)
    work = list(groups)
    rounds = 0
    while work:
        k = work.pop()
        while True:
            rounds += 1
            if rounds > 16:
                raise Unsupported("no invariant of the loop was found")
            n = marks(S)
            more, ok = [], True
            for S.n in list(range(1, WINDOW)) + [None] if k[1] else [0]:
                s0, mine = iteration(S, groups[k])
                more += mine
                ok = scanproof.kept(S, s0, [y for y in mine if kind(y) == k]) and ok
            if not ok:                               # not yet an invariant: less is kept
                restore(S, n)
                groups[k] = groups[k] + [y for y in more if kind(y) == k]
                continue
            invs[k] = S.inv, s0
            if marks(S)[:3] != n[:3]:
                break
            for y in more:
                q = kind(y)
                if q != k and not (q in invs and is_instance(S, invs[q], y)):
                    groups.setdefault(q, []).append(y)
                    if q not in work:
                        work.append(q)
            break


def is_instance(S, inv, y):
    now, S.inv = S.inv, inv[0]
    try:
        return scanproof.kept(S, inv[1], [y])
    finally:
        S.inv = now


def marks(S):
    return len(S.out["failed"]), len(S.out["undecided"]), len(S.e.unsupported), len(S.e.fails), dict(S.out["obl"])


def restore(S, m):
    for xs, n in zip((S.out["failed"], S.out["undecided"], S.e.unsupported, S.e.fails), m):
        del xs[n:]
    S.out["obl"] = m[4]


def iteration(S, group):
    """one iteration from an arbitrary state like those of the group: (that state, the states one step later)"""
    s = scanproof.arbitrary(S, group)
    vec = base = None
    if not S.S.in_place:
        vec = s.ghost["vec"]
        o = s.new(S.room * S.L.size, "heap", "results so far")
        S.begin = Ptr(o.id, vals.scale(vals.var("results so far", 0, MANY), -S.L.size))
        base = Ptr(o.id, 0)
        c = s.w(vec.o)
        for x, p in ((0, S.begin), (8, base), (16, Ptr(o.id, S.room * S.L.size))):
            c.cells[vec.f + x] = (8, p)
    s0 = s.fork()
    out = []
    for z in S.run(s, 2):
        if z.done[0] == "ret":
            returned(S, z, base)
            continue
        for y in stepped(S, z, vec, base):
            if vec is not None and not scanproof.same_value(S.e.load(y, vec, ("p",)), S.begin):
                S.bad(y.ctx, "result", "the results before are not kept")
            out.append(y)
    return s0, out


@induct.partly
def merge_task(W, reader, args, deadline, out):
    """the merge of two arbitrary results, one a date and one a time, against its contract; args: which of them have an end"""
    which, ends = args
    e, L, w = refproof.fresh(W, reader, deadline)
    out.update(induct.result(e))
    cls = refproof.CLASS[which]
    st, this = obj(W, cls)
    if not st.ctx.pc:
        st.ctx = vals.Ctx()
    parts, ass = [], []
    for nm, end in zip(("date", "time"), ends):
        s, h, d, a = absres.result_of(nm, True, end)
        parts.append((s, h, d))
        ass += a
    (ds, dh, _), (ts, th, _) = parts
    size = lambda h: vals.add(h.idx, strs.length(st.ctx, h.text))
    ass += [vals.le(size(h), w.size(st.ctx)) for h in (dh, th)]
    ass += [vals.neg(ds.get("hour")[0]), vals.neg(ts.get("month")[0]), vals.neg(ts.get("mday")[0]),
            vals.disj(vals.le(size(dh), th.idx), vals.le(size(th), dh.idx))]
    for c in ass:
        st.ctx.assume(c)
    tx = st.new(32, "heap", "text")
    tx.cells[0] = (32, w.s())
    objs = []
    for s, h, d in parts:
        o = st.new(L.size, "heap", "result given")
        L.write(st, o, 0, s, h, d)
        objs.append(Ptr(o.id, 0))
    res = st.new(L.size, "heap", "merged result")
    res.cells = {}
    e.call(st, W.fn(MERGE[which]), [Ptr(res.id, 0), this, Ptr(tx.id, 0)] + objs)
    given = Rs(w, parts)
    ins = lambda ctx: refproof.inputs(which, given, ctx)

    def contract(ctx):
        d, t = views(ctx, list(enumerate(parts)))
        return spec.merge_date_time(vals.SymCal(), Slice(w, ctx), d, t)
    for s in e.run_all(st):
        out["paths"] += 1
        if s.done[0] != "ret":
            induct.check(out, s.ctx, "exception", "the merge throws", False, ins)
            continue
        s.done, s.frames = None, []
        got = L.view(e, s, Ptr(res.id, 0))
        for want, c in sym.explore(s.ctx, contract):
            if want in ("none", "open"):
                continue
            for what, cond, soft in conds(c, want, got):
                induct.check(out, c, "result", "the merged result: %s" % what, False if cond is None else cond, ins)
            if time.time() > deadline:
                raise Unsupported("time limit")
    refproof.finish(out, e)


class Rs:
    def __init__(self, w, rs):
        self.w, self.rs = w, rs
