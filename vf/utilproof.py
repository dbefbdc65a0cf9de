"""The number vocabulary against its contract: argToOrdinalValue on every text, the scan of a compound duration cut at its
search, toLowerCase and toUpperCase."""
import random

import conform
import engine
import induct
import lang
import match
import models
import oracle
import rx
import scanproof
import spec
import strs
import sym
import vals
from engine import Ptr
from spec import NoResult
from vals import B, Unsupported

UNITS = sym.FRAG_UNITS


def start(W, out, deadline):
    vals.reset()
    e = W.engine()
    e.deadline = deadline
    e.merge = False
    out.update(induct.result(e))
    st = W.init.fork()
    st.ctx = vals.Ctx()
    return e, st


def text_object(st, s):
    o = st.new(32, "heap", "text")
    o.cells[0] = (32, s)
    return Ptr(o.id, 0)


# ------------------------------------------------------------------------ ordinals
def ordinal_lang(w):
    sep = ("set", (1 << ord(" ")) | (1 << ord("-")))
    parts = []
    for i, x in enumerate(w.split(" ")):
        parts += ([("rep", sep, 1, None, True)] if i else []) + [("set", 1 << ord(c) | 1 << ord(c.upper())) for c in x]
    around = ("rep", sep, 0, None, True)
    return lang.from_ast(("cat", (around,) + tuple(parts) + (around,)))


@induct.partly
def ordinal_task(W, deadline, out):
    e, st = start(W, out, deadline)
    x = vals.leaf("the argument", lang.ALL)
    p = text_object(st, strs.mk([x]))
    st.heap[p.o].kind = "const"
    e.call(st, W.fn("utils::argToOrdinalValue"), [p])
    words = {w: (n, ordinal_lang(w)) for w, n in spec.ORDINAL.items()}
    seen = None
    rnd = random.Random(5)

    def inputs(L):
        ws = {L.shortest()} | {L.random(rnd) for _ in range(60)}
        return lambda ctx: [("expect", "ordinal " + conform.hx(w), str(oracle.ordinal(w))) for w in sorted(w for w in ws if w is not None)]
    for s in e.run_all(st):
        out["paths"] += 1
        for ctx, L in told(s.ctx, x):
            seen = L if seen is None else lang.union(seen, L)
            if s.done[0] == "throw":
                induct.firm(out, ctx, "exception", "argToOrdinalValue throws", False, inputs(L))
                continue
            v = s.done[1]
            rest = L
            for w, (n, K) in words.items():
                J = lang.inter(L, K)
                if not J.empty():
                    rest = lang.minus(rest, K)
                    induct.firm(out, ctx, "value", "the value of %r" % w, vals.eq(v, n), inputs(J))
            if not rest.empty():
                induct.firm(out, ctx, "value", "the value of a text that is no ordinal", vals.eq(v, 0), inputs(rest))
    out["undecided"] += e.unsupported
    if not e.unsupported and (seen is None or not lang.minus(lang.ALL, seen).empty()):
        out["undecided"].append("some arguments are not covered")


def told(ctx, x):
    """(context, what is known of x) with each text made from x that is one of few words told apart"""
    made = set(models.IMAGE) | set(models.CASED)
    for y in sorted(made & set(ctx.dom)):
        ws = ctx.lang(y).words()
        if ws is not None and 1 < len(ws) <= 200:
            for w in ws:
                c = ctx.copy()
                c.setlang(y, lang.literal(w))
                yield from told(c, x)
            return
    L = ctx.lang(x)
    for y in made:
        o, K = models.origin(ctx, y)
        if o == x:
            L = lang.inter(L, K)
    if not L.empty():
        yield ctx, L


# ------------------------------------------------------------------------ letter case
@induct.partly
def case_task(W, which, deadline, out):
    e, st = start(W, out, deadline)
    t = strs.mk([vals.leaf("the argument", lang.ALL)])
    p = text_object(st, t)
    r = st.new(32, "heap", "result")
    up = which == "toUpperCase"
    e.call(st, W.fn("utils::" + which), [Ptr(r.id, 0), p])
    want = models.casing(e, st, t, up)
    for s in e.run_all(st):
        out["paths"] += 1
        ok = s.done[0] == "ret" and models.gets(e, s, Ptr(r.id, 0)) == want
        induct.check(out, s.ctx, "result", "%s changes the case of each letter and nothing else" % which, ok, lambda ctx: [])
    out["undecided"] += e.unsupported


# ------------------------------------------------------------------------ compound durations
class Frag(scanproof.Places):
    """the scan of a compound duration"""

    def __init__(self, W, deadline, out):
        self.W, self.out = W, out
        self.e, self.st = start(W, out, deadline)
        self.e.cut["std::regex_search"] = self.search
        self.e.cut["string::substr"] = lambda *a: scanproof.Scan.substr(self, *a)
        self.rx = None
        self.dropped = set()
        self.old = 0
        self.shape = None

    def leaf(self, nm, L):
        x = models._CUTS.get(("frag", nm))
        if x is None:
            x = models._CUTS["frag", nm] = vals.leaf(nm, L)
        return x

    def search(self, e, st, a, name, params):
        if "match_results" not in params:
            return models.regex_search(e, st, a, name, params)
        r = models.rxof(e, st, a[2])
        if not params.startswith("(string const&"):
            raise Unsupported("another search")
        if self.rx is None:
            self.expression(st, r)
        if r.pat != self.rx.pat or r.icase != self.rx.icase:
            raise Unsupported("two expressions")
        if st.arrivals >= e.stop_at:
            st.done = ("at", "search")
            return engine.DEFER
        s = models.gets(e, st, a[0])
        P = st.ghost["scan"]
        if s.p != P.R:
            st.ghost["wrong"] = ("scan", "the text searched next is not what follows the last count and unit")
            st.done = ("wrong",)
            return engine.DEFER
        k = st.arrivals
        ok = e.truth(st, B("bool", ("found", k)))
        which = 0
        while ok and which < len(self.shapes) - 1 and e.truth(st, B("bool", ("shape", k, which))):
            which += 1
        st.arrivals += 1
        if ok:
            mv = models._CUTS.get(("match", k, which))
            if mv is None:
                mv = models._CUTS["match", k, which] = self.shapes[which].instantiate(lang.ALL, lang.ALL)
            st.ctx.assume(vals.eq(scanproof.n_of(st.ctx, P.R), scanproof.n_of(st.ctx, mv.tx)))
            scanproof.replace(st, P.R[0], mv.tx)
            i, j = mv.g[0]
            st.ghost["scan"] = scanproof.Parts(P.G + mv.tx[:j], mv.tx[j:])
            st.ghost["match"] = mv
            m = mv
        else:
            m = models.MatchVal(P.R, {}, r.groups(), ok=False)
            st.ghost["ended"] = True
        o = e.obj(st, a[1], "write")
        e.put(st, o, e.offset(st, a[1]), 32, m)
        return ok

    def expression(self, st, r):
        """the expression is the contract's, and its matches are not empty"""
        a = rx.canon(rx.parse(r.pat, r.icase)[0])
        b = rx.canon(rx.parse(spec.PATTERN["unit"], True)[0])
        if a != b:
            A, B_ = (lang.from_ast(rx.strip_groups(x)) for x in (a, b))
            out = []
            for D in (lang.minus(A, B_), lang.minus(B_, A)):
                if not D.empty():
                    out += [D.shortest()] + [D.random(random.Random(k)) for k in range(60)]
            self.more = [t for w in out if w is not None for t in (w, "x %s y" % w)]
            raise Unsupported("the expression of a count and unit is another one than its contract's")
        self.rx = r
        self.shapes = match.shapes(r.pat, r.icase, False)
        L = lang.from_ast(rx.strip_groups(rx.parse(r.pat, r.icase)[0]))
        self.hold(st.ctx, "termination", "a count and unit is never empty", "" not in L)

    more = ()

    def hold(self, ctx, kind, what, cond):
        (induct.check if self.dropped else induct.firm)(self.out, ctx, kind, what, cond, self.inputs)

    def inputs(self, ctx):
        return samples(self.more)

    def begin(self):
        st = self.st
        t = vals.leaf("the text", lang.ALL)
        p = text_object(st, strs.mk([t]))
        r = st.new(models.mapsize("map"), "heap", "fragments")
        self.res = Ptr(r.id, 0)
        st.ghost.update(scan=scanproof.Parts((), (t,)), match=None, ended=False, wrong=None, called=0)
        self.e.call(st, self.W.fn("utils::extractDateTimeUnitFragments"), [self.res, p])
        return st

    def run(self, st, n):
        self.e.stop_at = n
        st.done = None
        for s in self.e.run_all(st):
            self.out["paths"] += 1
            if s.done[0] == "wrong":
                self.hold(s.ctx, *s.ghost["wrong"], False)
            else:
                yield s

    # ------------------------------------------------------------ the fragments
    def find(self, s):
        """the map the fragments are gathered in"""
        own = [(i, k) for i, o in s.heap.items() if self.W.init.heap.get(i) is not o and o.alive and o.kind not in ("global", "const")
               for k, (n, v) in o.cells.items() if isinstance(v, models.MapVal) and s.heap[i].size >= n]
        if (self.res.o, 0) in own:
            return self.res
        if len(own) != 1:
            raise Unsupported("the fragments were not found")
        return Ptr(*own[0])

    def compare(self, s, vec, base):
        """the map is the contract's, one count and unit after base (unit -> (is there, count), None: empty)"""
        got = models.mapof(self.e, s, vec)
        base = base or {}
        for c in synced(s.ctx):
            s = s.fork()
            s.ctx = c
            mv = s.ghost["match"]

            def contract(ctx):
                if mv is None:
                    return {}
                return oracle.one_fragment(sym.SymCap(low(self.e, s, mv), ctx), {})
            for want, ctx in sym.explore(s.ctx, contract):
                for ctx in synced(ctx):
                    self.same(s, ctx, got, base, want)

    def same(self, s, ctx, got, base, want):
        if want is None or want == "none":
            self.hold(ctx, "exception", "a count too large throws", s.done[0] == "throw")
            return
        if s.done[0] == "throw":
            self.hold(ctx, "exception", "counts that can be used do not throw", False)
            return
        for k in list(got.d) + list(got.maybe or {}):
            if k not in UNITS:
                self.hold(ctx, "result", "the fragments hold only units", False)
                return
        for u in UNITS:
            if u in want:
                there, n = True, want[u]
            else:
                there, n = base.get(u, (False, None))
            if u in got.d:
                is_, oid = True, got.d[u]
            elif got.maybe and u in got.maybe:
                is_, oid = got.maybe[u]
            else:
                is_, oid = False, None
            if there is not is_:
                a, b = (vals.tob(x) if hasattr(vals, "tob") else x for x in (there, is_))
                self.hold(ctx, "result", "whether there is a count of %ss" % u, iff(a, b))
            else:
                induct.count(self.out, "result")
            if oid is not None and there is not False:
                v = s.heap[oid].cells[models.voff("string", "double")][1]
                cond = vals.eq(v, n) if not (isinstance(v, float) or isinstance(n, float)) else v == n
                if there is not True:
                    cond = vals.disj(vals.neg(there), cond)
                self.hold(ctx, "result", "the count of %ss" % u, cond)


def iff(a, b):
    if isinstance(a, bool):
        a, b = b, a
    if isinstance(b, bool):
        return a if b else (not a if isinstance(a, bool) else vals.neg(a))
    return vals.disj(vals.conj(a, b), vals.conj(vals.neg(a), vals.neg(b)))


def low(e, s, mv):
    tx = tuple(x for p in mv.tx for x in models.casing(e, s, strs.mk([p]), False).p) if all(p != "" for p in mv.tx) else None
    if tx is None or len(tx) != len(mv.tx):
        raise Unsupported("the case of a match")
    return models.MatchVal(tx, mv.g, mv.n, mv.free)


def synced(ctx):
    """the context with what is known of a text also known of its other case; nothing when that is impossible"""
    ctx = ctx.copy()
    for y, (x, up) in models.CASED.items():
        L = lang.inter(ctx.lang(y), lang.cased(ctx.lang(x), up))
        if L.empty():
            return
        if y in ctx.dom or x in ctx.dom:
            ctx.setlang(y, L)
            K = lang.inter(ctx.lang(x), lang.uncased(L, up))
            if K.empty():
                return
            ctx.setlang(x, K)
    yield ctx


def samples(more=()):
    r = random.Random(7)
    pool = conform.Pool(7)
    out = []
    texts = list(more)
    for _ in range(250):
        parts = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
            parts.append(r.choice(conform.COUNTS) + r.choice([" ", "", "  "]) + r.choice(conform.UNITS2))
            parts.append(r.choice([" ", "", ", ", " and ", " x ", "-"]))
        texts.append(pool.case(r.choice(["", "", "in ", "x"]) + "".join(parts)))
    for t in texts:
        try:
            f = oracle.fragments(t)
        except NoResult:
            continue
        out.append(("expect", "fragments " + conform.hx(t), "{" + "".join("%s=%s " % (k, f[k]) for k in sorted(f)) + "}"))
    return out


@induct.partly
def fragments_task(W, deadline, out):
    """extractDateTimeUnitFragments of an arbitrary text"""
    F = Frag(W, deadline, out)
    st = F.begin()
    first = []
    for s in F.run(st, 0):
        if s.done[0] != "at":
            F.hold(s.ctx, "scan", "the scan ends without a search", False)
            continue
        first.append(s)
    second = []
    for s in first:
        for z in F.run(s, 1):
            finish(F, z, None, None, second)
    groups = {}
    for s in second:
        groups.setdefault(scanproof.site(s), []).append(s)
    work = list(groups)
    rounds = 0
    while work:
        k = work.pop()
        while True:
            rounds += 1
            if rounds > 12:
                raise Unsupported("no invariant of the scan was found")
            n = len(out["failed"])
            s = scanproof.arbitrary(F, groups[k])
            vec = s.ghost["vec"]
            base = anything(F, s, vec)
            s0 = s.fork()
            more = []
            for z in F.run(s, 2):
                finish(F, z, vec, base, more)
            if len(out["failed"]) > n:
                break
            for z in more:
                if scanproof.site(z) not in groups:
                    work.append(scanproof.site(z))
                    groups[scanproof.site(z)] = []
                if scanproof.site(z) != k:
                    groups[scanproof.site(z)].append(z)
            mine = [z for z in more if scanproof.site(z) == k]
            if not scanproof.kept(F, s0, mine):
                groups[k] = groups[k] + mine
                continue
            break
    if F.e.unsupported or out["undecided"]:
        F.dropped.clear()
        states = second                  # no invariant: the first ones one by one, every state of which occurs
        for n in (2, 3):
            more = []
            for z in states:
                v = z.ghost["vec"]
                base = {u: (True, z.heap[i].cells[models.voff("string", "double")][1]) for u, i in models.mapof(F.e, z, v).d.items()}
                for y in F.run(z.fork(), n):
                    finish(F, y, v, base, more)
            states = more
    out["undecided"] += F.e.unsupported


def anything(F, s, vec):
    """any fragments"""
    base, maybe = {}, {}
    for u in UNITS:
        c, n = B("bool", ("before", u)), vals.var(("before", u), 0, spec.INT_MAX)
        x = models.zero_entry(F.e, s, s.heap[vec.o], u, "string", "double")
        x.cells[models.voff("string", "double")] = (8, n)
        base[u], maybe[u] = (c, n), (c, x.id)
    o = s.w(vec.o)
    o.cells[vec.f] = (o.cells[vec.f][0], models.MapVal({}, True, maybe))
    return base


def finish(F, z, vec, base, more):
    if z.done[0] == "at":
        if vec is None:
            vec = F.find(z)
        z.ghost["vec"] = vec
        F.compare(z, vec, base)
        more.append(z)
    elif z.done[0] == "throw":
        if z.done[1].type not in (models.OOR,):
            F.hold(z.ctx, "exception", "an exception that execute() does not catch", "_ZTISt11logic_error" in engine.bases(F.W.m, z.done[1].type))
        F.compare(z, vec or F.find(z), base)
    elif not z.ghost["ended"]:
        F.hold(z.ctx, "scan", "the scan ends before the text does", False)
    else:
        z.ghost["match"] = None
        F.compare(z, F.res, base)
