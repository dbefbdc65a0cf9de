"""The contracts of spec.py on symbolic captures, and their comparison with what the code computed."""
import contextlib

import lang
import models
import spec
import strs
import vals
from spec import ANY, FIELDS, NoResult, Res, TAGS, Unspecified
from vals import B, ForkOn, Lin, Unsupported

RANGE_OFFSET = strs._lang(r"\s*[+-]\s*\d{3,4}")


class SymCap:
    """Captures of an unknown match, with the questions spec.py asks of them."""

    def __init__(self, mv, ctx):
        self.mv, self.ctx = mv, ctx

    def s(self, g):
        return self.mv.str(g)

    def member(self, g, L):
        while True:
            c = strs.member(self.ctx, self.s(g), L)
            if not isinstance(c, B):
                return c
            bool(c)                      # decided by the exploration, which narrows the context

    def empty(self, g):
        return self.member(g, lang.EPS)

    def eq(self, g, w):
        return self.member(g, lang.literal(w))

    def has(self, g, w):
        return self.member(g, lang.containing(w))

    def begins(self, g, w):
        return self.member(g, lang.starting(w))

    def digits(self, g):
        while True:
            k = strs.digits(self.ctx, self.s(g))
            if k[0] != "cond":
                return k
            bool(k[1])

    def num(self, g):
        k = self.digits(g)
        if k[0] == "num":
            return k[1]
        if k[0] == "neg":
            return vals.scale(k[1], -1)
        raise Unsupported("the number in %r" % (self.s(g),))

    def absnum(self, g):
        k = self.digits(g)
        if k[0] in ("num", "neg"):
            return k[1]
        raise Unsupported("the number in %r" % (self.s(g),))

    def lookup(self, g, table, default):
        if not self.member(g, lang.from_words(table)):
            return default
        if all(isinstance(v, int) for v in table.values()):
            try:
                return strs.table(self.ctx, self.s(g), table)
            except Unsupported:
                pass
        return table[self.word(g, table)]

    def choose(self, g, ws):
        return self.word(g, ws)

    def word(self, g, ws):
        for w in ws:
            if self.eq(g, w):
                return w
        return None

    def ordinal(self, g):
        return ORDINAL_HOOK(self, self.s(g))

    def fragments(self, g):
        return FRAGMENT_HOOK(self, self.s(g))

    def range_is_offset(self, g):
        return self.member(g, RANGE_OFFSET)


def ordinal_table(ctx, s):
    import oracle
    ws = strs.words(ctx, s)
    if ws is None:
        raise Unsupported("ordinal of an open text")
    return strs.table(ctx, s, {w: oracle.ordinal(w) for w in (x if isinstance(x, str) else x[0] for x in ws)})


def ORDINAL_HOOK(cap, s):
    return ordinal_table(cap.ctx, s)


def frag_bool(s, u):
    return B("bool", ("frag", s, u))


def frag_num(s, u):
    return vals.var(("frag", s, u), 0, spec.INT_MAX)


def FRAGMENT_HOOK(cap, s):
    out = {}
    if frag_bool(s, "too large"):
        raise NoResult("count too large")
    for u in FRAG_UNITS:
        if frag_bool(s, u):
            out[u] = frag_num(s, u)
    return out


FRAG_UNITS = ("day", "hour", "minute", "month", "second", "week", "year")


class Budget(Exception):
    pass


def explore(ctx, fn, limit=4000):
    """all outcomes of fn(ctx) with its undecided conditions taken both ways"""
    work = [()]
    n = 0
    while work:
        script = work.pop()
        n += 1
        if n > limit:
            raise Unsupported("too many cases in a contract")
        c = ctx.copy()
        taken = []

        def dec(b):
            r = c.decide(b)
            if r is not None:
                return r
            i = len(taken)
            if i < len(script):
                v = script[i]
            else:
                v = True
                work.append(tuple(taken) + (False,))
            taken.append(v)
            c.assume(b if v else vals.neg(b))
            return v

        old = B.current, vals.SymCal.decide
        B.current, vals.SymCal.decide = dec, lambda b: c.decide(b) if isinstance(b, B) else b
        try:
            try:
                out = fn(c)
            except NoResult:
                out = "none"
            except Unspecified:
                out = "open"
        finally:
            B.current, vals.SymCal.decide = old
        yield out, c


class SymRef(spec.Ref):
    pass


def sym_ref(lo=None, hi=None):
    """an unknown reference time inside the calendar"""
    return spec.Ref(vals.var("ref.day", spec.CAL.MIN, spec.CAL.MAX), vals.var("ref.hour", 0, 23), vals.var("ref.minute", 0, 59),
                    vals.var("ref.second", 0, 59), vals.var("ref.us", 0, 999999))


# ------------------------------------------------------------------------ views of the code's state
class Reader:
    """Observes results through the code's own accessors."""
    GET = {"year": "getYear", "month": "getMonth", "mday": "get_mDay", "wday": "get_wDay", "hour": "getHour",
           "min": "getMinute", "sec": "getSeconds", "tzoffset": "getTimeZoneOffset"}

    def __init__(self, w):
        self.w = w
        self.getters = {f: w.fn("parse::ParsedComponents::" + g) for f, g in self.GET.items()}
        self.certain_ = w.fn("parse::ParsedComponents::isCertain")
        self.index_ = w.fn("parse::ParsedResult::getIndex")
        self.end_ = w.fn("parse::ParsedResult::end")
        self.tag_ = w.fn("parse::ParsedResult::getTag")
        self.possible_ = w.fn("parse::ParsedResult::hasPossibleDates")
        self.t = ("s", "class.parse::ParsedResult")
        m = w.m
        fs, offs = m.fields(self.t), m.offsets(self.t)
        self.text_off = [o for o, t in zip(offs, fs) if t[0] == "s" and "basic_string" in t[1]][0]
        comp = [o for o, t in zip(offs, fs) if t[0] == "s" and "ParsedComponents" in t[1]]
        self.start_off, self.endd_off = comp
        self.size = m.size(self.t)
        self.csize = m.size(("s", "class.parse::ParsedComponents"))
        self.e = w.engine()
        g = m.init("vf_tags")
        self.tagno = [v[1] for _, v in g[3][1]] if g[3][0] == "agg" else list(range(len(TAGS)))
        if self.tagno and g[3][1][0][1][0] == "zero":
            self.tagno[0] = 0
        self.tagno = [x if isinstance(x, int) else 0 for x in self.tagno]

    def at(self, p, k):
        return engine_ptr(p, k)

    def comps(self, st, p):
        f = {}
        for k in FIELDS:
            s, v = self.w.one(self.e, st, self.getters[k], [p])
            o = st.new(32, "heap", "name")
            o.cells[0] = (32, strs.lit(k))
            s, c = self.w.one(self.e, st, self.certain_, [p, models.Ptr(o.id, 0)])
            del st.heap[o.id]
            f[k] = (c, self.e.sn(st, v, 32))
        return spec.Comps(f)

    def text(self, st, p):
        c = st.heap[p.o].cells.get(p.f + self.text_off)
        if c is None or not isinstance(c[1], strs.Str):
            raise Unsupported("text of a result")
        return c[1]

    def views(self, st, p):
        """[(state, view)] of the result at p; several when reading it distinguishes cases"""
        st.frames, st.done = [], None
        work, out = [st], []
        while work:
            s = work.pop()
            try:
                out.append((s, self.view(s, p)))
            except ForkOn as f:
                r = s.ctx.decide(f.cond)
                if r is not None:
                    s.ctx.assume(f.cond if r else vals.neg(f.cond))
                    work.append(s)
                else:
                    t = s.fork()
                    s.ctx.assume(f.cond)
                    t.ctx.assume(vals.neg(f.cond))
                    work += [s, t]
        return out

    def view(self, st, p):
        w = self.w
        r = Res()
        _, i = w.one(self.e, st, self.index_, [p])
        r.index = self.e.un(st, i, 32)
        r.text = self.text(st, p)
        r.start = self.comps(st, self.at(p, self.start_off))
        _, en = w.one(self.e, st, self.end_, [p])
        en = self.e.truth(st, en)
        r.end = self.comps(st, self.at(p, self.endd_off)) if en else None
        for n, name in enumerate(TAGS):
            _, b = w.one(self.e, st, self.tag_, [p, self.tagno[n]])
            if self.e.truth(st, b):
                r.tags.add(name)
        return r

    def possible(self, st, p):
        """outcomes of hasPossibleDates: [(context, bool)]"""
        out = []
        s = st.fork()
        s.frames, s.done = [], None
        for x in self.w.all(self.e, s, self.possible_, [p]):
            if x.done[0] != "ret":
                raise Unsupported("hasPossibleDates throws")
            v = x.done[1]
            if isinstance(v, B):
                y = x.fork()
                x.ctx.assume(v)
                y.ctx.assume(vals.neg(v))
                out += [(x.ctx, True), (y.ctx, False)]
            else:
                out.append((x.ctx, bool(v)))
        return out


def engine_ptr(p, k):
    return models.Ptr(p.o, vals.add(p.f, k))


# ------------------------------------------------------------------------ comparison
def norm(ctx, s):
    out = []
    for x in s.p:
        if isinstance(x, int):
            ws = ctx.lang(x).words(2)
            if ws is not None and len(ws) == 1:
                x = ws[0]
        out.append(x)
    return strs.mk(out)


def same_text(ctx, a, b):
    """True / False / None"""
    a, b = norm(ctx, a), norm(ctx, b)
    if a.p == b.p:
        return True
    la, lb = a.lit(), b.lit()
    if la is not None and lb is not None:
        return False
    if la is not None or lb is not None:
        s, w = (b, la) if la is not None else (a, lb)
        try:
            c = strs.member(ctx, s, lang.literal(w))
        except Unsupported:
            return None
        return c if isinstance(c, bool) else False
    # common prefix and suffix removed: what is left must be equal
    pa, pb = list(a.p), list(b.p)
    while pa and pb and pa[0] == pb[0]:
        pa.pop(0), pb.pop(0)
    while pa and pb and pa[-1] == pb[-1]:
        pa.pop(), pb.pop()
    try:
        r = strs.member(ctx, strs.mk(pa + pb), lang.EPS) if not (pa and pb) else None
    except Unsupported:
        return None
    if r is None:
        return None
    return r if isinstance(r, bool) else False


def conds(ctx, want, got, skip=()):
    """[(what, condition)] that make the two views equal"""
    out = [("position", vals.eq(want.index, got.index))]
    if not want.opentext:
        out.append(("text", same_text(ctx, want.text, got.text)))
    if (want.end is None) != (got.end is None):
        return out + [("end date: %s, expected %s" % (got.end and "one" or "none", want.end and "one" or "none"), False)]
    for nm, a, b in (("start", want.start, got.start), ("end", want.end, got.end)):
        if a is None:
            continue
        for f in FIELDS:
            x, y = a.f.get(f, (False, 0)), b.f.get(f, (False, 0))
            if x[0] is ANY:
                continue
            c = (y[0] if x[0] else vals.neg(y[0])) if isinstance(y[0], B) else bool(x[0]) == bool(y[0])
            out.append(("%s %s explicit" % (nm, f), c))
            out.append(("%s %s" % (nm, f), vals.eq(x[1], y[1])))
    out.append(("tags", (want.tags - want.anytags) == (got.tags - want.anytags)))
    return out


def show(ctx, want):
    return repr(want)
