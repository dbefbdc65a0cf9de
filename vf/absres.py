"""Dates and results as their callers know them: by the contracts C01-C03 establish.

A date is eight fields, each explicit or not, with a value; a result is a position, a text, tags, a start,
an end or none.  The member functions of parse::ParsedComponents and parse::ParsedResult are replaced by these
contracts (Engine.cut) when functions that use dates and results are verified; private state is out of reach."""
import engine
import lang
import models
import spec
import strs
import vals
from engine import Ptr
from spec import FIELDS, TAGS
from vals import B, Unsupported

I32 = (-(1 << 31), (1 << 31) - 1)
PC, PR = "parse::ParsedComponents", "parse::ParsedResult"


class SymComps(spec.Comps):
    """a date of the contract some of whose fields may be explicit or not"""

    def copy(self):
        return SymComps(self.f)

    def imply(self, k, v):
        c, old = self.f.get(k, (False, 0))
        self.f[k] = (c, vals.ite(c, old, v))


class AComp:
    """fields: ((explicit, value), ...) in the order of FIELDS"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, AComp) and all(same(a, c) and same(b, d) for (a, b), (c, d) in zip(self.f, o.f))

    def __hash__(self):
        return 7

    def get(self, k):
        return self.f[FIELDS.index(k)]

    def put(self, k, certain, v):
        i = FIELDS.index(k)
        return AComp(self.f[:i] + ((certain, v),) + self.f[i + 1:])

    def joined(self, c, o):
        return AComp((engine.both(c, a, b), vals.ite(c, x, y)) for (a, x), (b, y) in zip(self.f, o.f))

    def comps(self):
        return SymComps({k: x for k, x in zip(FIELDS, self.f)})


NODATE = AComp([(False, 0)] * 8)


class AHead:
    """the private part of a result; end: True/False/B"""
    __slots__ = ("idx", "text", "tags", "end", "anchor")

    def __init__(self, idx, text, tags, end, anchor=None):
        self.idx, self.text, self.tags, self.end, self.anchor = idx, text, tuple(tags), end, anchor

    def __eq__(self, o):
        return (isinstance(o, AHead) and same(self.idx, o.idx) and self.text == o.text and same(self.end, o.end)
                and all(same(a, b) for a, b in zip(self.tags, o.tags)))

    def __hash__(self):
        return 8

    def joined(self, c, o):
        if not (same(self.idx, o.idx) and self.text == o.text and same(self.end, o.end)):
            raise engine.Mixed
        return AHead(self.idx, self.text, [engine.both(c, a, b) for a, b in zip(self.tags, o.tags)], self.end, self.anchor)

    def but(self, **k):
        d = {n: getattr(self, n) for n in self.__slots__}
        d.update(k)
        return AHead(**d)


def same(a, b):
    if isinstance(a, vals.Lin) or isinstance(b, vals.Lin):
        return isinstance(a, (int, vals.Lin)) and isinstance(b, (int, vals.Lin)) and vals.lkey(a) == vals.lkey(b)
    return a == b if type(a) is type(b) or isinstance(a, int) and isinstance(b, int) else False


class Tags:
    """a set of tags some of which are unknown"""

    def __init__(self, d=None):
        self.d = dict(d or {})

    def __contains__(self, t):
        return bool(self.d.get(t, False))

    def __or__(self, o):
        d = dict(self.d)
        for t in (o.d if isinstance(o, Tags) else dict.fromkeys(o, True)):
            x, y = d.get(t, False), o.d[t] if isinstance(o, Tags) else True
            d[t] = vals.disj(x, y)
        return Tags(d)

    def __ror__(self, o):
        return self | o

    def add(self, t):
        self.d[t] = True


def tagset(x):
    return Tags(x.d) if isinstance(x, Tags) else set(x)


# ------------------------------------------------------------------------ arbitrary values
def date_of(nm, possible=True):
    """an arbitrary date: (AComp, assumptions)"""
    rng = {"year": (1400, 9999), "month": (1, 12), "mday": (1, 31), "hour": (0, 24), "min": (0, 59), "sec": (0, 59)} if possible else {}
    f = [(B("bool", (nm, "certain", k)), vals.var((nm, k), *rng.get(k, I32))) for k in FIELDS]
    c = AComp(f)
    return c, ([vals.le(c.get("mday")[1], vals.cal_eom(c.get("year")[1], c.get("month")[1]))] if possible else [])


def result_of(nm, possible=True, end=None):
    """an arbitrary result with a text of its own: (start, head, end date, assumptions)"""
    s, a = date_of((nm, "start"), possible)
    d, b = date_of((nm, "end"), possible)
    key = ("text of", nm)
    t = models._CUTS.get(key)
    if t is None:
        t = models._CUTS[key] = vals.leaf("text of %s" % (nm,), lang.of_len(1, None))
    h = AHead(vals.var((nm, "index"), 0, (1 << 31) - 1), strs.mk([t]), [B("bool", (nm, "tag", x)) for x in TAGS],
              B("bool", (nm, "has end")) if end is None else end)
    return s, h, d, a + b


class Layout:
    def __init__(self, reader):
        self.rd = reader
        self.size, self.start, self.endd, self.csize = reader.size, reader.start_off, reader.endd_off, reader.csize
        if 0 in (self.start, self.endd):
            self.head = max(self.start, self.endd) + self.csize
            if self.head >= self.size:
                raise Unsupported("layout of results")
        else:
            self.head = 0
        self.n = 0

    def write(self, st, o, f, s, h, d):
        c = st.w(o.id).cells
        c[f + self.head], c[f + self.start], c[f + self.endd] = (1, h), (1, s), (1, d)

    # -------------------------------------------------------- cells
    def cell(self, e, st, p, cls, what="read"):
        o = e.obj(st, p, what)
        f = e.offset(st, p)
        c = o.cells.get(f)
        if c is None or not isinstance(c[1], cls):
            if c is None and o.kind == "stack" or o.kind == "heap":
                e.fails.append(engine.Fail("defined", "a %s that was never constructed" % ("date" if cls is AComp else "result"), st.ctx.copy(), e.where(st)))
                raise engine.Dead()
            raise Unsupported("a date or result of unknown origin")
        return o, f, c[1]

    def date(self, e, st, p):
        return self.cell(e, st, p, AComp)[2]

    def head_(self, e, st, p):
        return self.cell(e, st, Ptr(p.o, vals.add(p.f, self.head)), AHead)[2]

    def setcell(self, e, st, p, v):
        o = e.obj(st, p, "write")
        e.put(st, o, e.offset(st, p), 1, v)

    def sethead(self, e, st, p, v):
        self.setcell(e, st, Ptr(p.o, vals.add(p.f, self.head)), v)

    def at(self, p, k):
        return Ptr(p.o, vals.add(p.f, k))

    def hidden(self):
        """the end date of a result without one: anything"""
        self.n += 1
        return date_of(("hidden", self.n), False)[0]

    def copy(self, e, st, src, dst):
        h = self.head_(e, st, src)
        s = self.date(e, st, self.at(src, self.start))
        d = self.date(e, st, self.at(src, self.endd))
        if not e.truth(st, h.end):
            h = h.but(end=False)
            d = self.hidden()
        else:
            h = h.but(end=True)
        self.sethead(e, st, dst, h)
        self.setcell(e, st, self.at(dst, self.start), s)
        self.setcell(e, st, self.at(dst, self.endd), d)

    # -------------------------------------------------------- the contracts
    def cuts(self):
        out = {}
        L = self

        def cut(key):
            def deco(f):
                def g(e, st, a, name, params):
                    e.contracts.add(name)
                    return f(e, st, a, params)
                out[key] = g
                return f
            return deco

        def word(e, st, p):
            w = models.gets(e, st, p).lit()
            if w is None:
                raise Unsupported("an unknown field name")
            return w

        @cut(PC + "::ParsedComponents")
        def _(e, st, a, params):
            if params == "()":
                L.setcell(e, st, a[0], NODATE)
            elif params.startswith(("(parse::ParsedComponents const&)", "(parse::ParsedComponents&&)")):
                L.setcell(e, st, a[0], L.date(e, st, a[1]))
            else:
                raise Unsupported("constructor of a date %s" % params[:80])

        @cut(PC + "::~ParsedComponents")
        def _(e, st, a, params):
            o, f, _ = L.cell(e, st, a[0], AComp, "destruction")
            del st.w(o.id).cells[f]

        @cut(PC + "::operator=")
        def _(e, st, a, params):
            L.date(e, st, a[0])
            L.setcell(e, st, a[0], L.date(e, st, a[1]))
            return a[0]

        for k, g in self.rd.GET.items():
            cut(PC + "::" + g)(lambda e, st, a, params, k=k: L.date(e, st, a[0]).get(k)[1])
        import induct
        for k, g in induct.SETTER.items():
            cut(PC + "::" + g)(lambda e, st, a, params, k=k: L.setcell(e, st, a[0], L.date(e, st, a[0]).put(k, True, e.sn(st, a[1], 32))))

        @cut(PC + "::implyComponent")
        def _(e, st, a, params):
            w = word(e, st, a[1])
            c = L.date(e, st, a[0])
            if w in FIELDS:
                k, v = c.get(w)
                L.setcell(e, st, a[0], c.put(w, k, vals.ite(k, v, e.sn(st, a[2], 32))))

        @cut(PC + "::isCertain")
        def _(e, st, a, params):
            w = word(e, st, a[1])
            c = L.date(e, st, a[0])
            return c.get(w)[0] if w in FIELDS else False

        def possible(e, st, p):
            c = L.date(e, st, p)
            g = lambda k: c.get(k)[1]
            if not e.truth(st, vals.conj(vals.le(1400, g("year")), vals.le(g("year"), 9999), vals.le(1, g("month")), vals.le(g("month"), 12), vals.le(1, g("mday")))):
                return False
            return e.truth(st, vals.conj(vals.le(g("mday"), vals.cal_eom(g("year"), g("month"))), vals.le(0, g("hour")), vals.le(g("hour"), 24),
                                         vals.le(0, g("min")), vals.le(g("min"), 59), vals.le(0, g("sec")), vals.le(g("sec"), 59)))

        @cut(PC + "::isPossibleDate")
        def _(e, st, a, params):
            return possible(e, st, a[0])

        @cut(PC + "::date")
        def _(e, st, a, params):
            p = a[-1]
            if not possible(e, st, p):
                raise Unsupported("the instant of a date that does not exist")
            t = spec.instant(vals.SymCal(), L.date(e, st, p).comps())
            if len(a) == 1:
                return t
            o = e.obj(st, a[0], "write")
            e.put(st, o, e.offset(st, a[0]), 8, t)

        @cut(PR + "::ParsedResult")
        def _(e, st, a, params):
            if params == "()":
                L.sethead(e, st, a[0], AHead(0, strs.lit(""), [False] * len(TAGS), False))
                L.setcell(e, st, L.at(a[0], L.start), NODATE)
                L.setcell(e, st, L.at(a[0], L.endd), L.hidden())
            elif params.startswith(("(parse::ParsedResult const&)", "(parse::ParsedResult&&)")):
                L.copy(e, st, a[1], a[0])
            else:
                raise Unsupported("constructor of a result %s" % params[:80])

        @cut(PR + "::~ParsedResult")
        def _(e, st, a, params):
            L.head_(e, st, a[0])
            o = st.w(a[0].o)
            for k in (L.head, L.start, L.endd):
                o.cells.pop(e.offset(st, L.at(a[0], k)), None)

        @cut(PR + "::operator=")
        def _(e, st, a, params):
            L.head_(e, st, a[0])
            L.copy(e, st, a[1], a[0])
            return a[0]

        @cut(PR + "::isEmpty")
        def _(e, st, a, params):
            h = L.head_(e, st, a[0])
            return vals.conj(vals.eq(h.idx, 0), vals.eq(strs.length(st.ctx, h.text), 0))

        def tag(e, st, v):
            v = e.sn(st, v, 32)
            if not isinstance(v, int) or v not in L.rd.tagno:
                raise Unsupported("an unknown tag")
            return L.rd.tagno.index(v)

        @cut(PR + "::getTag")
        def _(e, st, a, params):
            return L.head_(e, st, a[0]).tags[tag(e, st, a[1])]

        @cut(PR + "::setTag")
        def _(e, st, a, params):
            h = L.head_(e, st, a[0])
            i = tag(e, st, a[1])
            L.sethead(e, st, a[0], h.but(tags=h.tags[:i] + (True,) + h.tags[i + 1:]))

        @cut(PR + "::getIndex")
        def _(e, st, a, params):
            return L.head_(e, st, a[0]).idx

        @cut(PR + "::setIndex")
        def _(e, st, a, params):
            v = e.un(st, a[1], 32)
            L.sethead(e, st, a[0], L.head_(e, st, a[0]).but(idx=v))

        @cut(PR + "::setText")
        def _(e, st, a, params):
            L.sethead(e, st, a[0], L.head_(e, st, a[0]).but(text=models.gets(e, st, a[1])))

        @cut(PR + "::textLength")
        def _(e, st, a, params):
            return strs.length(st.ctx, L.head_(e, st, a[0]).text)

        @cut(PR + "::end")
        def _(e, st, a, params):
            return L.head_(e, st, a[0]).end

        @cut(PR + "::makeEndDateValid")
        def _(e, st, a, params):
            L.sethead(e, st, a[0], L.head_(e, st, a[0]).but(end=True))

        @cut(PR + "::hasPossibleDates")
        def _(e, st, a, params):
            h = L.head_(e, st, a[0])
            if not possible(e, st, L.at(a[0], L.start)):
                return False
            return not e.truth(st, h.end) or possible(e, st, L.at(a[0], L.endd))
        return out

    # -------------------------------------------------------- views for the contract
    def view(self, e, st, p):
        h = self.head_(e, st, p)
        r = spec.Res(h.idx, h.text, self.date(e, st, self.at(p, self.start)).comps())
        r.tags = Tags(zip(TAGS, h.tags))
        r.hasend = h.end
        d = self.date(e, st, self.at(p, self.endd)).comps()
        if h.end is False:
            r.end = None
        else:
            r.end = d
        return r
