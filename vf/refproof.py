"""Refiners against their contracts, on arbitrary results (absres.py)."""
import time

import absres
import engine
import induct
import lang
import models
import rx
import spec
import strs
import sym
import vals
from absres import AHead, Layout, Tags
from engine import Ptr
from spec import FIELDS, TAGS
from vals import B, Lin, Unsupported

CLASS = {"overlap": "OverlapRemover", "datetime": "ENMergeDateAndTime", "range": "ENMergeDateRange", "timezone": "ExtractTimeZoneAbbreviation"}


class Whole:
    """The text of a scan: parts of it are known by where they begin and how long they are."""

    def __init__(self):
        self.leaf = vals.leaf("the text", lang.ALL)
        self.parts = []                  # (begin, length or None, leaf)

    def s(self):
        return strs.mk([self.leaf])

    def size(self, ctx):
        return strs.length(ctx, self.s())

    def part(self, ctx, at, n):
        """the text from at, n characters or (None) to its end"""
        if n is not None:
            if isinstance(n, int) and n == 0:
                return strs.lit("")
            if ctx.decide(vals.lt(n, 0)) is True or ctx.decide(vals.le(self.size(ctx), at + n)) is True:
                n = None
        k = (vals.lkey(at), None if n is None else vals.lkey(n))
        for a, m, x in self.parts:
            if (vals.lkey(a), None if m is None else vals.lkey(m)) == k:
                return strs.mk([x])
        for a, m, x in self.parts:
            if (m is None) == (n is None) and ctx.decide(vals.eq(a, at)) is True and (n is None or ctx.decide(vals.eq(m, n)) is True):
                return strs.mk([x])
        x = vals.leaf("text[%s:+%s]" % (at, n), lang.ALL)
        self.parts.append((at, n, x))
        return strs.mk([x])


class Slice:
    """the text as the contract sees it"""

    def __init__(self, whole, ctx):
        self.w, self.ctx = whole, ctx

    def size(self):
        return self.w.size(self.ctx)

    def __getitem__(self, k):
        lo = k.start if k.start is not None else 0
        return Piece(self.w.part(self.ctx, lo, None if k.stop is None else vals.add(k.stop, vals.scale(lo, -1))), self.ctx)


class Piece:
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx

    def size(self):
        return strs.length(self.ctx, self.s)

    def member(self, L):
        c = strs.member(self.ctx, self.s, L)
        return c if isinstance(c, bool) else bool(c)

    def __contains__(self, w):
        return self.member(lang.from_ast(("cat", (models.ANYS, rx.parse(w.replace("-", "\\-"))[0], models.ANYS))))

    def tz_name(self):
        """an upper-case name, for membership in and lookup from a table"""
        if not self.member(TZ):
            return None
        return Name(strs.mk([tz_leaf(self.s)]), self.ctx)


class Name:
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx

    def offset(self):
        (x,) = self.s.p

        class St:
            ctx = self.ctx
        u = strs.mk([models.cased(St, x, True)])
        c = strs.member(self.ctx, u, lang.from_words(spec.TIMEZONE))
        if not (c if isinstance(c, bool) else bool(c)):
            return None
        return strs.table(self.ctx, u, spec.TIMEZONE)


def tz_ast():
    return rx.parse(r"\s*\(?([A-Z]{2,5})\)?", True)[0]


TZ = lang.from_ast(rx.strip_groups(tz_ast()))


def tz_leaf(s):
    key = ("tz name", s)
    x = models._CUTS.get(key)
    if x is None:
        x = models._CUTS[key] = vals.leaf("the abbreviation in %r" % (s,), lang.from_ast(rx.parse(r"[A-Z]{2,5}", True)[0]))
    return x


def tz_hook(e, st, a, s, r, whole):
    """the captures of a match of the abbreviation's expression: some way of reading the text"""
    if s.lit() is not None or not whole or len(s.p) != 1:
        return None
    n = r.ast()
    try:
        L = whole_lang(n)
    except Unsupported:
        return None
    if not (lang.minus(L, TZ).empty() and lang.minus(TZ, L).empty()):
        raise Unsupported("the abbreviation's expression accepts other texts than the contract's")
    if groups(n) != 1:
        raise Unsupported("captures of an unknown expression")
    ok = models.decide(e, st, s, TZ)
    if ok:
        # what the group captures: shown to be the letters
        if not captures_letters(n):
            raise Unsupported("captures of an unknown expression")
        g = tz_leaf(s)
        p, q = (cached(("tz", k, s), L) for k, L in ((0, r"\s*\(?"), (1, r"\)?")))
        m = models.MatchVal((p, g, q), {0: (0, 3), 1: (1, 2)}, 2)
    else:
        m = models.MatchVal((), {}, 2, ok=False)
    o = e.obj(st, a[1], "write")
    e.put(st, o, e.offset(st, a[1]), 32, m)
    return ok


def cached(key, pat):
    x = models._CUTS.get(key)
    if x is None:
        x = models._CUTS[key] = vals.leaf(str(key[:2]), lang.from_ast(rx.parse(pat)[0]))
    return x


def groups(n):
    import match
    out = {}
    match.groups_in(n, out)
    return len(out)


def unanchored(n):
    """the expression of a whole match without assertions that hold at the ends"""
    xs = list(n[1]) if n[0] == "cat" else [n]
    if xs and xs[0][0] == "bol":
        xs = xs[1:]
    if xs and xs[-1][0] == "eol":
        xs = xs[:-1]
    if xs and xs[-1][0] == "la" and at_end(xs[-1]):
        xs = xs[:-1]
    n = ("cat", tuple(xs))
    if rx.has_assert(n):
        raise Unsupported("assertions")
    return n


def at_end(la):
    """a lookahead that always holds at the end of the text"""
    b = la[1]
    alts = b[1] if b[0] == "alt" else (b,)
    return len(la) < 3 or not la[2] or True if any(x[0] == "eol" for x in alts) else False


def whole_lang(n):
    return lang.from_ast(rx.strip_groups(unanchored(n)))


def captures_letters(n):
    n = unanchored(n)

    def only(x):
        k = x[0]
        if k == "grp":
            return x[2]
        if k in ("cat",):
            for y in x[1]:
                z = only(y)
                if z is not None:
                    return z
        return None
    g = only(n)
    if g is None:
        return False
    L = lang.from_ast(rx.strip_groups(g))
    M = lang.from_ast(rx.parse(r"[A-Z]{2,5}", True)[0])
    return lang.minus(L, M).empty() and lang.minus(M, L).empty()


def fresh(W, reader, deadline):
    vals.reset()
    L = Layout(reader)
    e = W.engine()
    e.deadline = deadline
    e.cut.update(L.cuts())
    e.merge = True
    e.match_hook = tz_hook
    w = Whole()

    def substr(e, st, a, name, params):
        s = models.gets(e, st, a[1])
        if s.p != (w.leaf,):
            return models.string_substr(e, st, a, name, params)
        pos, n = e.un(st, a[2], 64), e.sn(st, a[3], 64)
        if isinstance(pos, int) and pos < 0 or not e.truth(st, vals.le(pos, w.size(st.ctx))):
            raise models.Throw(models.OOR, "basic_string::substr")
        if not isinstance(n, int) and e.truth(st, vals.lt(n, 0)) or isinstance(n, int) and n < 0:
            n = None
        models.sets(e, st, a[0], w.part(st.ctx, pos, n))
        return None
    e.cut["string::substr"] = substr
    return e, L, w


def obj(W, cls):
    """(state, object) with a refiner constructed"""
    e = W.engine()
    st, p = W.object(e, W.init.fork(), cls)
    if e.fails or e.unsupported:
        raise Unsupported("construction of %s" % cls)
    st.w(p.o).kind, st.heap[p.o].name = "global", "refiner object"
    return st, p


ANYWHERE = ("overlap", "timezone")       # whose results may lie outside the text


class Given:
    """the arbitrary results of one list"""

    def __init__(self, L, ctx, n, w, possible, order, ends=None):
        self.rs = []
        ass = []
        for k in range(n):
            s, h, d, a = absres.result_of("r%d" % k, possible, ends[k] if ends else None)
            self.rs.append((s, h, d))
            ass += a
        self.w = w
        for s, h, d in self.rs if order not in ANYWHERE else ():
            ass.append(vals.le(h.idx + strs.length(ctx, h.text), w.size(ctx)))
        for (_, h, _), (_, g, _) in zip(self.rs, self.rs[1:]) if order != "timezone" else ():
            ass.append(vals.le(h.idx, g.idx) if order == "overlap" else vals.le(h.idx + strs.length(ctx, h.text), g.idx))
        for c in ass:
            ctx.assume(c)

    def views(self, ctx, ks=None):
        out = []
        for k in range(len(self.rs)) if ks is None else ks:
            s, h, d = self.rs[k]
            r = spec.Res(h.idx, Piece(h.text, ctx), s.comps())
            r.tags = Tags(zip(TAGS, h.tags))
            r.tags.copy = lambda t=r.tags: copytags(t)
            r.end = d.comps() if bool(h.end) else None
            r.src = k
            out.append(r)
        return out


def copytags(t):
    c = Tags(t.d)
    c.copy = lambda: copytags(c)
    return c


SPEC = {"overlap": lambda text, rs: spec.overlap(rs), "timezone": lambda text, rs: spec.timezone(text, rs),
        "datetime": lambda text, rs: spec.datetime(vals.SymCal(), text, rs), "range": lambda text, rs: spec.range_(vals.SymCal(), text, rs)}


def vector(e, st, L, W, rs, room=0):
    """a std::vector with these results in it: pointer"""
    n = len(rs)
    arr = st.new(L.size * (n + room), "heap", "elements") if n + room else None
    for k, (s, h, d) in enumerate(rs):
        L.write(st, arr, k * L.size, s, h, d)
    v = st.new(24, "heap", "list")
    p = lambda k: Ptr(arr.id, k * L.size) if arr else engine.NULL
    v.cells[0], v.cells[8], v.cells[16] = (8, p(0)), (8, p(n)), (8, p(n + room))
    return Ptr(v.id, 0)


def elements(e, st, L, p):
    """pointers to the elements of a vector"""
    b, n = (e.load(st, Ptr(p.o, vals.add(p.f, k)), ("p",)) for k in (0, 8))
    if not isinstance(b, Ptr):
        raise Unsupported("the list")
    if b == n:
        return []
    k = vals.add(n.f, vals.scale(b.f, -1)) if b.o == n.o else None
    if not isinstance(k, int) or k % L.size:
        raise Unsupported("the length of a list")
    return [Ptr(b.o, vals.add(b.f, i)) for i in range(0, k, L.size)]


def tagdiff(ctx, want, got, anyt=()):
    out = []
    for t in TAGS:
        if t in anyt:
            continue
        x = want.d.get(t, False) if isinstance(want, Tags) else t in want
        y = got.d.get(t, False) if isinstance(got, Tags) else t in got
        if absres.same(x, y):
            continue
        out.append((t, iff(x, y)))
    return out


def iff(x, y):
    if isinstance(x, bool):
        return y if x else vals.neg(y)
    if isinstance(y, bool):
        return x if y else vals.neg(x)
    return vals.disj(vals.conj(x, y), vals.conj(vals.neg(x), vals.neg(y)))


def conds(ctx, want, got):
    """[(what, condition or None, soft)] that make two results equal"""
    out = [("position", vals.eq(want.index, got.index), False)]
    if not want.opentext:
        ws = want.text.s if isinstance(want.text, Piece) else strs.lit(want.text)
        out.append(("text", True if ws.p == got.text.p else sym.same_text(ctx, ws, got.text) or None, True))
    ge = got.hasend
    if want.end is None:
        out.append(("no end", vals.neg(ge) if isinstance(ge, B) else not ge, False))
    else:
        out.append(("an end", ge if isinstance(ge, B) else bool(ge), False))
    for nm, a, b in (("start", want.start, got.start), ("end", want.end, got.end)):
        if a is None or b is None:
            continue
        for f in FIELDS:
            x, y = a.f.get(f, (False, 0)), b.f.get(f, (False, 0))
            if not absres.same(x[0], y[0]):
                out.append(("%s %s explicit" % (nm, f), iff(x[0], y[0]), False))
            out.append(("%s %s" % (nm, f), True if absres.same(x[1], y[1]) else vals.eq(x[1], y[1]), False))
    n = len(out)
    for t, c in tagdiff(ctx, want.tags, got.tags, want.anytags):
        out.append(("tag %s" % t, c, False))
    if len(out) == n:
        out.append(("tags", True, False))
    return out


@induct.partly
def list_task(W, reader, args, deadline, out):
    """refine() of a list of n arbitrary results against the contract"""
    which, n, ends = args
    e, L, w = fresh(W, reader, deadline)
    cls = CLASS[which]
    st, this = obj(W, cls)
    if not st.ctx.pc:
        st.ctx = vals.Ctx()
    given = Given(L, st.ctx, n, w, which in ("datetime", "range"), which, ends)
    tx = st.new(32, "heap", "text")
    tx.cells[0] = (32, w.s())
    src = vector(e, st, L, W, given.rs)
    res = st.new(24, "heap", "refined list")
    res.cells = {}
    fn = W.fn(cls + "::refine")
    e.call(st, fn, [Ptr(res.id, 0), this, src, Ptr(tx.id, 0)])
    out.update(induct.result(e))
    ins = lambda ctx: inputs(which, given, ctx)

    def contract(ctx):
        return SPEC[which](Slice(w, ctx), given.views(ctx))
    for s in e.run_all(st):
        out["paths"] += 1
        if s.done[0] != "ret":
            for want, c in sym.explore(s.ctx, contract):
                if want not in ("none", "open"):
                    induct.firm(out, c, "exception", "%s::refine throws" % cls, False, ins)
            continue
        s.done, s.frames = None, []
        got = [L.view(e, s, p) for p in elements(e, s, L, Ptr(res.id, 0))]
        for want, c in sym.explore(s.ctx, contract):
            if want in ("none", "open"):
                continue
            compare(out, c, want, got, ins)
            if time.time() > deadline:
                raise Unsupported("time limit")
    for x in e.fails:
        induct.firm(out, x.ctx, x.kind, "%s in %s" % (x.what, x.where), False, ins)
    finish(out, e)


def finish(out, e):
    out["undecided"] += e.unsupported
    e.fails.clear()


def compare(out, c, want, got, ins):
    if len(want) != len(got):
        induct.firm(out, c, "length", "the list has %d results, expected %d" % (len(got), len(want)), False, ins)
        return
    induct.count(out, "length")
    for k, (a, b) in enumerate(zip(want, got)):
        for what, cond, soft in conds(c, a, b):
            if cond is None:
                induct.check(out, c, "result", "result %d: %s" % (k + 1, what), False, ins)
            else:
                induct.firm(out, c, "result", "result %d: %s" % (k + 1, what), cond, ins)


def inputs(which, given, ctx, n=40):
    """candidate lists for a refuted obligation: dates, tags and positions from the model, texts from their languages"""
    import random
    import conform
    import oracle
    import suites
    m = ctx.model()
    rnd = random.Random(len(given.rs) * 7 + len(ctx.pc))
    val = lambda v: v if isinstance(v, int) else m.eval(vals.zlin(v), model_completion=True).as_long()
    yes = lambda b: b if isinstance(b, bool) else bool(m.eval(vals.zb(b), model_completion=True))
    own = lambda s: next((a for a, b, x in given.w.parts if (x,) == s.p), None)
    out = []
    for k in range(n):
        text, rs = "", []
        for i, (s, h, d) in enumerate(given.rs):
            L = gap_lang(ctx, given, i - 1) if i else None
            text += rnd.choice(suites.FILL) if L is None or rnd.random() < 0.3 else L.random(rnd).replace("\n", " ") if not L.empty() else " "
            r = spec.Res(len(text), "".join(rnd.choice("abcdt 12") for _ in range(rnd.randint(1, 6))), conc(s, val, yes))
            r.tags = {t for t, b in zip(TAGS, h.tags) if yes(b)}
            r.end = conc(d, val, yes) if yes(h.end) else None
            text += r.text
            rs.append(r)
        if which == "timezone" and given.rs:
            rs[-1].text = text[rs[-1].index:]
        text += rnd.choice(["", "", "", " est", " (PST)", "gmt", " EST now", " zzz", " x", " yekst", "(Anast)", " " + rnd.choice(sorted(spec.TIMEZONE)).lower()])
        if which == "timezone" and rnd.random() < 0.2:
            text = text[:rnd.randint(0, len(text))]
        if which == "overlap":
            at = [val(h.idx) for _, h, _ in given.rs]
            ln = [val(strs.length(ctx, h.text)) for _, h, _ in given.rs]
            if k < n // 2 and all(x < 3000 for x in ln) and all(x - at[0] < 5000 for x in at):
                base = rnd.choice([at[0], at[0] % 100])
                for r, x, l in zip(rs, at, ln):
                    r.index, r.text = x - at[0] + base, "x" * l
            else:
                for r in rs:
                    r.index = max(0, r.index - rnd.choice([0, 0, 1, 2, 5]))
                    r.text = r.text * rnd.choice([1, 1, 2, 3])
            rs.sort(key=lambda r: r.index)
            text = rnd.choice([text, text, text[:4], ""])
        out.append(("list", "refine %s %s %s %s" % (which, suites.REF, conform.hx(text), oracle.show_list(rs))))
    return out


def conc(c, val, yes):
    return spec.Comps({k: (yes(a), val(v)) for k, (a, v) in zip(FIELDS, c.f)})


def gap_lang(ctx, given, i):
    """what is known of the text between two results"""
    h = given.rs[i][1]
    e = vals.lkey(h.idx + strs.length(ctx, h.text))
    for a, n, x in given.w.parts:
        if vals.lkey(a) == e:
            L = ctx.lang(x)
            if lang.minus(lang.ALL, L).empty():
                continue
            return L
    return None
