"""The command line tool against its contract: one run of main for an arbitrary text and reference time.

The scans, the refiners and the rendering enter by their contracts (C04, C06, C08-C24): a list of results is known by what it
is a list of - the results of one parser's scan, lists put together, a list in the order of its positions, what a refiner makes
of a list - and by its length.  The lists live in std::vector objects whose storage is that term; the functions of std::vector
that move results enter by contract, the others (begin, at, empty, ...) are executed."""
import absres
import engine
import induct
import lang
import models
import names
import parserproof
import refproof
import spec
import strs
import sym
import vals
from engine import NULL, Ptr
from vals import B, Unsupported

ORDER = ("overlap", "timezone", "datetime", "range")
REFINERS = {c: k for k, c in refproof.CLASS.items()}
INVALID = "[???] -- Invalid date\n"


class Elem:
    """a copy of the first result of a list"""

    def __init__(self, t):
        self.t = t


class Tool:
    def __init__(self, W, deadline, out):
        self.W, self.out, self.deadline = W, out, deadline
        vals.reset()
        self.e = e = W.engine()
        e.deadline = deadline
        e.merge = False
        e.initialising = True                    # the tool may keep what it likes where it likes
        self.size = None
        self.compares = {}
        self.failed_scan = False
        cut = e.cut
        for n in W.byshort:
            if n.startswith("parser::") and n.endswith("::execute"):
                cut[n] = self.execute
            elif n.endswith("::refine") and (n.rsplit("::", 1)[0] in REFINERS):
                cut[n] = self.refine
        cut["parse::ParsedResult::toDate"] = self.to_date
        cut["boost::posix_time::time_from_string"] = self.reference
        cut["boost::date_time::second_clock::local_time"] = self.clock
        for n, f in (("sort", self.sort), ("stable_sort", self.sort), ("vector::insert", self.insert), ("vector::operator=", self.assign),
                     ("vector::vector", self.construct), ("vector::~vector", self.nothing), ("vector::swap", self.swap),
                     ("vector::erase", self.erase), ("vector::resize", self.erase), ("vector::pop_back", self.erase), ("vector::clear", self.clear)):
            cut["std::" + n] = lambda name, params: self.isresults(name), f
        cut["parse::ParsedResult::ParsedResult"] = lambda name, params: params.startswith("(parse::ParsedResult"), self.copy
        cut["parse::ParsedResult::operator="] = self.copy
        cut["parse::ParsedResult::~ParsedResult"] = self.nothing
        cut["std::shared_ptr::shared_ptr"] = lambda name, params: params.startswith(("()", "(std::shared_ptr<")), self.share
        cut["std::shared_ptr::~shared_ptr"] = cut["std::list::~list"] = self.nothing
        cut["std::operator<<"] = cut["std::ostream::operator<<"] = self.print
        cut["std::endl"] = self.endl

    # ------------------------------------------------------------ lists of results
    def isresults(self, name):
        return "parse::ParsedResult" in self.W.m.demangle(name)

    def step(self, e, st, a, name, params):
        """no contract"""
        raise Unsupported("call of %s" % self.W.m.demangle(name)[:120])

    def length(self, st, t):
        """of a list, as a number"""
        if t[0] == "empty":
            return 0
        if t[0] == "cat":
            n = 0
            for x in t[1:]:
                n = vals.add(n, self.length(st, x))
            return n
        if t[0] in ("sorted", "partly sorted"):
            return self.length(st, t[1])
        k = vals.var("length of %r" % (t,), 0, 1 << 31)
        if t[0] in ORDER:
            n = self.length(st, t[1])
            st.ctx.assume(vals.le(k, n))
            st.ctx.assume(vals.le(n, vals.scale(k, 1 << 36)))          # some remain of some
        return k

    def list(self, st, t):
        """storage that holds it: (first, past the last)"""
        o = st.new(0, "results", "results")
        o.nat = t
        n = vals.scale(self.length(st, t), self.elem())
        o.size = n
        return Ptr(o.id, 0), Ptr(o.id, n)

    def elem(self):
        if self.size is None:
            self.size = self.W.size("parse::ParsedResult")
        return self.size

    def term(self, e, st, b, f):
        """what the elements from b to f are"""
        if b == NULL or f == NULL:
            if b == f:
                return ("empty",)
            raise Unsupported("a part of a list")
        if not isinstance(b, Ptr) or not isinstance(f, Ptr) or b.o != f.o or st.heap[b.o].kind != "results":
            raise Unsupported("a list of results")
        o = st.heap[b.o]
        if self.e.truth(st, vals.eq(b.f, 0)) and self.e.truth(st, vals.eq(f.f, o.size)):
            return o.nat
        return ("some of", o.nat)

    def of(self, e, st, v):
        """of a vector"""
        if not isinstance(v, Ptr):
            raise Unsupported("a list of results")
        b, f = (e.load(st, Ptr(v.o, vals.add(v.f, k)), ("p",)) for k in (0, 8))
        return self.term(e, st, b, f)

    def give(self, e, st, v, t):
        b, f = (NULL, NULL) if t == ("empty",) else self.list(st, t)
        o, k = e.obj(st, v, "write"), e.offset(st, v)
        for i, p in enumerate((b, f, f)):
            e.put(st, o, k + 8 * i, 8, p)

    def construct(self, e, st, a, name, params):
        if params == "()":
            self.give(e, st, a[0], ("empty",))
        elif params.startswith("(std::vector<parse::ParsedResult") and params.rstrip(")").endswith(("&", "&&")) and len(a) == 2:
            t = self.of(e, st, a[1])
            if params.rstrip(")").endswith("&&"):
                self.give(e, st, a[1], ("empty",))
            self.give(e, st, a[0], t)
        elif len(a) >= 3 and "iterator" in params:
            self.give(e, st, a[0], self.term(e, st, a[1], a[2]))
        else:
            self.step(e, st, a, name, params)

    def assign(self, e, st, a, name, params):
        t = self.of(e, st, a[1])
        if a[0] != a[1]:
            if params.rstrip(")").endswith("&&"):
                self.give(e, st, a[1], ("empty",))
            self.give(e, st, a[0], t)
        return a[0]

    def swap(self, e, st, a, name, params):
        t, u = self.of(e, st, a[0]), self.of(e, st, a[1])
        self.give(e, st, a[0], u)
        self.give(e, st, a[1], t)

    def insert(self, e, st, a, name, params):
        if len(a) != 4:
            return self.step(e, st, a, name, params)
        t, u = self.of(e, st, a[0]), self.term(e, st, a[2], a[3])
        b, f = (e.load(st, Ptr(a[0].o, vals.add(a[0].f, k)), ("p",)) for k in (0, 8))
        if self.at(e, st, a[1], f):
            r = parts(t) + parts(u)
        elif self.at(e, st, a[1], b):
            r = parts(u) + parts(t)
        else:
            raise Unsupported("the place of an insertion")
        self.give(e, st, a[0], ("cat",) + r if len(r) != 1 else r[0])
        return self.begin_of(e, st, a[0])

    def at(self, e, st, p, q):
        """the same place"""
        if not isinstance(p, Ptr) or not isinstance(q, Ptr):
            raise Unsupported("a place in a list")
        return p.o == q.o and e.truth(st, vals.eq(p.f, q.f))

    def begin_of(self, e, st, v):
        return e.load(st, v, ("p",))

    def nothing(self, e, st, a, name, params):
        return None

    def share(self, e, st, a, name, params):
        """a shared pointer copied, moved or converted: to the same object"""
        o, k = e.obj(st, a[0], "write"), e.offset(st, a[0])
        if params == "()":
            v = NULL, NULL
        else:
            v = tuple(e.load(st, Ptr(a[1].o, vals.add(a[1].f, i)), ("p",)) for i in (0, 8))
        e.put(st, o, k, 8, v[0])
        e.put(st, o, k + 8, 8, v[1])

    # ------------------------------------------------------------ callees by contract
    def cls(self, e, st, p):
        """the class of an object"""
        v = e.load(st, p, ("p",))
        n = st.heap[v.o].name if isinstance(v, Ptr) else ""
        if not n.startswith("_ZTV"):
            raise Unsupported("the class of an object")
        n, out = n[4:].strip("NE"), []
        while n:
            k = len(n) - len(n.lstrip("0123456789"))
            if not k:
                raise Unsupported("the class of an object")
            i = k + int(n[:k])
            out.append(n[k:i])
            n = n[i:]
        return "::".join(out)

    def execute(self, e, st, a, name, params):
        e.contracts.add(name_of(e, name))
        c = self.cls(e, st, a[1])
        k = next((k for k, n in parserproof.CLASS.items() if c == "parser::" + n), None)
        if k is None:
            raise Unsupported("a scan by %s" % c)
        s = models.gets(e, st, a[2])
        if s.p not in (self.text, self.low):
            raise Unsupported("a scan of another text")
        r = e.load(st, a[3], ("i", 64))
        if not (same(r, st.ghost["ref"])):
            raise Unsupported("a scan with another reference time")
        models.sets(e, st, a[2], strs.Str(self.low))
        self.give(e, st, a[0], ("scan", k))
        return None

    def refine(self, e, st, a, name, params):
        e.contracts.add(name_of(e, name))
        k = REFINERS[name_of(e, name).rsplit("::", 1)[0]]
        s = models.gets(e, st, a[3])
        if s.p != self.low:
            raise Unsupported("a refinement with another text")
        t = self.of(e, st, a[2])
        self.give(e, st, a[0], t if t == ("empty",) else (k, t))
        return None

    def to_date(self, e, st, a, name, params):
        e.contracts.add(name_of(e, name))
        t = self.element(e, st, a[1])
        if e.truth(st, B("bool", ("past the calendar", t))):
            st.ghost["date"] = ("past", t)
            raise models.Throw(models.OOR, "the calendar")
        x = models._CUTS.get(("tool", t))
        if x is None:
            x = models._CUTS[("tool", t)] = vals.leaf("the rendering", lang.of_len(1, None))
        st.ghost["date"] = ("first", t)
        models.sets(e, st, a[0], strs.mk([x]))
        return None

    def reference(self, e, st, a, name, params):
        e.contracts.add(name_of(e, name))
        if models.gets(e, st, a[0]).p != self.reftext:
            raise Unsupported("the time of another text")
        return st.ghost["ref"]

    def clock(self, e, st, a, name, params):
        e.contracts.add(name_of(e, name))
        return st.ghost["ref"]

    def sort(self, e, st, a, name, params):
        e.contracts.add(name_of(e, name))
        t = self.term(e, st, a[0], a[1])
        f = comparison(self.W, e, name, a)
        self.compares.setdefault(f, 0)
        if t != ("empty",):
            st.w(a[0].o).nat = ("partly sorted", t[1]) if t[0] == "some of" else ("sorted", t[1] if t[0] in ("sorted", "partly sorted") else t)
        return None

    def erase(self, e, st, a, name, params):
        """some results are taken away"""
        t = self.of(e, st, a[0])
        if len(a) == 3:
            e.contracts.add(name_of(e, name))
            if self.at(e, st, a[1], a[2]):
                return a[1]
        elif e.truth(st, vals.eq(self.length(st, t), 0)) and name_of(e, name) != "std::vector::erase":
            return None
        self.give(e, st, a[0], ("some of", t))
        return self.begin_of(e, st, a[0])

    def clear(self, e, st, a, name, params):
        self.give(e, st, a[0], ("empty",))

    # ------------------------------------------------------------ one result of a list
    def element(self, e, st, p):
        """the list it is the first of"""
        if not isinstance(p, Ptr):
            raise Unsupported("a result")
        o = st.heap[p.o]
        if o.kind == "results":
            e.oblige(st, vals.le(vals.add(p.f, self.elem()), o.size), "memory", "a result of the list")
            return o.nat if e.truth(st, vals.eq(p.f, 0)) else ("another of", o.nat)
        c = o.cells.get(p.f)
        if c is None or not isinstance(c[1], Elem):
            raise Unsupported("a result of unknown origin")
        return c[1].t

    def copy(self, e, st, a, name, params):
        t = self.element(e, st, a[1])
        o = e.obj(st, a[0], "write")
        if o.kind == "results":
            raise Unsupported("a result is replaced")
        e.put(st, o, e.offset(st, a[0]), 8, Elem(t))
        return a[0]

    # ------------------------------------------------------------ what is printed
    def print(self, e, st, a, name, params):
        if not (isinstance(a[0], Ptr) and st.heap[a[0].o].name == "_ZSt4cout"):
            if isinstance(a[0], Ptr) and st.heap[a[0].o].name == "_ZSt4cerr":
                return a[0]
            raise Unsupported("output to another place")
        if isinstance(a[1], engine.Fn):
            return self.endl(e, st, a, a[1].name, params) if name_of(e, a[1].name) == "std::endl" else self.step(e, st, a, name, params)
        if params.endswith("char const*)"):
            s = models.cstr(e, st, a[1])
        elif "string const&" in params:
            s = models.gets(e, st, a[1])
        elif params.endswith("char)") and isinstance(a[1], int):
            s = strs.mk([chr(a[1] & 255)])
        else:
            return self.step(e, st, a, name, params)
        st.ghost["out"] = st.ghost["out"] + tuple(s.p)
        return a[0]

    def endl(self, e, st, a, name, params):
        st.ghost["out"] = st.ghost["out"] + ("\n",)
        return a[0]

    # ------------------------------------------------------------ running
    def arg(self, st, s):
        o = st.new(1, "heap", "argument")
        o.nat = ("cstr", s)
        return Ptr(o.id, 0)

    def start(self, n):
        st = self.W.init.fork()
        st.done, st.frames = None, []
        t, r = vals.leaf("the text", lang.ALL), vals.leaf("the reference", lang.ALL)
        self.text, self.reftext = (t,), (r,)
        self.low = tuple(models.casing(self.e, st, strs.mk([t]), False).p)
        ref = parserproof.ptime(st, sym.sym_ref())
        argv = st.new(8 * (n + 1), "heap", "arguments")
        for k, p in enumerate([self.arg(st, strs.mk(["time"])), self.arg(st, strs.mk([t])), self.arg(st, strs.mk([r]))][:n] + [NULL]):
            argv.cells[8 * k] = (8, p)
        st.ghost.update(ref=st.heap[ref.o].cells[0][1], out=(), date=None)
        self.e.call(st, self.W.fn("vf_tool"), [n, Ptr(argv.id, 0)])
        return st

    def hold(self, ctx, kind, what, cond, soft=False):
        (induct.check if soft else induct.firm)(self.out, ctx, kind, what, cond, lambda ctx: [])

    # ------------------------------------------------------------ the contract
    def ends(self, s):
        if s.done[0] == "throw":
            self.hold(s.ctx, "exception", "the tool ends by an exception", False)
            return
        self.hold(s.ctx, "exit", "the exit status is 0", s.done[1] == 0)
        date = s.ghost["date"]
        got = strs.mk(s.ghost["out"]).p
        if date is None:
            self.hold(s.ctx, "result", "without a rendering the message is printed", got == (INVALID,))
            n = self.length(s, self.all(s))
            self.hold(s.ctx, "result", "the message is printed for results that remain", vals.eq(n, 0))
            return
        self.final(s, date[1])
        if date[0] == "past":
            self.hold(s.ctx, "result", "past the calendar the message is printed", got == (INVALID,))
        else:
            want = strs.mk(["Date:\t", models._CUTS[("tool", date[1])], "\n"]).p
            self.hold(s.ctx, "result", "the rendering of the first result is printed", got == want)

    def all(self, s):
        """all the results found: their number decides whether any remains"""
        return ("cat",) + tuple(("scan", k) for k in spec.TOOL)

    def final(self, s, t):
        for k in reversed(ORDER):
            self.hold(s.ctx, "result", "the %s step is taken in its place" % k, t[0] == k)
            if t[0] != k:
                return
            t = t[1]
        self.hold(s.ctx, "result", "the results are ordered by position before they are refined", t[0] == "sorted")
        if t[0] != "sorted":
            return
        t = parts(t[1])
        for k in self.all(s)[1:]:
            self.hold(s.ctx, "result", "the results of %s are looked for once" % parserproof.CLASS[k[1]], t.count(k) == 1)
        self.hold(s.ctx, "result", "nothing else is reported", len(t) == len(self.all(s)) - 1)


def parts(t):
    return () if t == ("empty",) else t[1:] if t[0] == "cat" else (t,)


def same(a, b):
    return a is b or not isinstance(a, vals.Lin) and a == b or isinstance(a, vals.Lin) and isinstance(b, vals.Lin) and vals.lkey(a) == vals.lkey(b)


def name_of(e, name):
    return names.split(e.m.demangle(name))[0]


def comparison(W, e, name, a):
    """the function a sort compares by"""
    if len(a) >= 3 and isinstance(a[2], engine.Fn):
        return a[2].name
    d = e.m.demangle(name)
    i = d.find("<")
    depth, j, cuts = 0, i, [i + 1]
    for j in range(i, len(d)):
        depth += {"<": 1, ">": -1, "(": 1, ")": -1}.get(d[j], 0)
        if d[j] == "," and depth == 1:
            cuts.append(j + 1)
        if not depth:
            break
    if len(cuts) != 2:
        raise Unsupported("the order of a sort")
    f = d[cuts[1]:j].strip() + "::operator()("
    c = [n for n in e.m.funcs if e.m.demangle(n).startswith(f)]
    if len(c) != 1:
        raise Unsupported("the order of a sort")
    return c[0]


@induct.partly
def tool_task(W, n, deadline, out):
    """a run of the tool with n - 1 arguments"""
    T = Tool(W, deadline, out)
    st = T.start(n)
    out.update(induct.result(T.e, None))
    for s in T.e.run_all(st):
        out["paths"] += 1
        T.ends(s)
    out["undecided"] += T.e.unsupported
    if not out["undecided"]:
        out["compares"] = sorted(T.compares)


def answers(e, out, st, f, ps):
    """what a comparison of two results says"""
    st = st.fork()
    st.done, st.frames = None, []
    e.call(st, f, ps)
    for s in e.run_all(st):
        out["paths"] += 1
        if s.done[0] == "throw":
            induct.firm(out, s.ctx, "exception", "the order of two results throws", False, lambda ctx: [])
        else:
            yield (s.done[1] if isinstance(s.done[1], B) else bool(s.done[1])), s


@induct.partly
def order_task(W, reader, deadline, out):
    """the tool's order of two arbitrary results is that of their positions"""
    T = Tool(W, deadline, {})
    T.out = induct.result(T.e)
    list(map(T.ends, T.e.run_all(T.start(3))))
    compares = sorted(T.compares)
    vals.reset()
    L = absres.Layout(reader)
    e = W.engine()
    e.deadline = deadline
    e.cut.update(L.cuts())
    e.merge = False
    out.update(induct.result(e))
    if T.e.unsupported or not compares:
        raise Unsupported("the order of the results")
    for f in compares:
        st = W.init.fork()
        st.done, st.frames = None, []
        ps, hs = [], []
        for k in range(2):
            s, h, d, ass = absres.result_of("r%d" % k, False)
            for c in ass:
                st.ctx.assume(c)
            o = st.new(L.size, "heap", "result")
            L.write(st, o, 0, s, h, d)
            ps.append(Ptr(o.id, 0))
            hs.append(h)
        n = len(W.m.funcs[f].parse().params)
        if n == 3:
            ps.insert(0, Ptr(st.new(8, "heap", "order").id, 0))
        elif n != 2:
            raise Unsupported("the parameters of an order")
        for less, s in answers(e, out, st, f, ps):
            before, after = vals.lt(hs[0].idx, hs[1].idx), vals.lt(hs[1].idx, hs[0].idx)
            hold = lambda c, what, cond: induct.firm(out, c, "order", what, cond, lambda ctx: [])
            hold(s.ctx, "a result at an earlier position comes first", vals.disj(vals.neg(before), less))
            hold(s.ctx, "a result at a later position does not come first", vals.disj(vals.neg(after), vals.neg(less)))
            for back, z in answers(e, out, s, f, ps[:-2] + [ps[-1], ps[-2]]):
                hold(z.ctx, "two results do not come before each other", vals.neg(vals.conj(less, back)))
    out["undecided"] += e.unsupported
