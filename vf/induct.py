"""Data invariants of the classes: an arbitrary representation, and each operation's effect on it.

The representation is found by saturation: the constructor's object, then every operation on an arbitrary
object of the current representation, widening it until no operation leaves it.  The invariant so found is
then a lemma: constructors establish it and every operation keeps it (checked on every run), and each
operation's postcondition is proved from an arbitrary object that has it."""
import time

import engine
import lang
import models
import spec
import strs
import vals
from engine import Ptr
from models import MapVal
from spec import FIELDS
from vals import B, Lin, Unsupported

I32 = (-(1 << 31), (1 << 31) - 1)


class Enough(Exception):
    """enough refuted obligations in one task"""


# ------------------------------------------------------------------------ representations
class Rep:
    """{offset: ("int", size, lo, hi) | ("text", size) | ("map", size, ordered, {key: Rep of the entry}) | ("same", size, value)}"""

    def __init__(self):
        self.c = {}

    def __repr__(self):
        return repr(self.c)


def small(v):
    return isinstance(v, int) and -1 <= v <= 16


def full(size):
    return (0, 255) if size == 1 else (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)


def interval(ctx, v):
    if isinstance(v, (int, bool)):
        return int(v), int(v)
    if isinstance(v, B):
        return 0, 1
    return vals.interval(v, ctx.bounds)


def join_value(old, ctx, st, size, v, sub):
    """the representation `old` widened to hold v; None where the cell says nothing"""
    if isinstance(v, (int, Lin, B)):
        lo, hi = interval(ctx, v)
        if old is None:
            return ("int", size, lo, hi) if small(v) else ("int", size) + full(size)
        if old[0] != "int" or old[1] != size:
            raise Unsupported("a cell of two kinds")
        if lo >= old[2] and hi <= old[3]:
            return old
        if lo == hi and -1 <= lo <= 16:
            return ("int", size, min(lo, old[2]), max(hi, old[3]))
        r, _ = ctx.valid(vals.conj(vals.le(old[2], v), vals.le(v, old[3]))) if isinstance(v, Lin) else ("no", None)
        if r == "proved":
            return old
        f = full(size)
        if hi > f[1] and lo >= 0 and size > 1:             # kept as an unsigned number
            f = (0, (1 << (8 * size)) - 1)
            f = (min(f[0], old[2]), max(f[1], old[3])) if old[2] >= 0 else full(size)
        return ("int", size) + f
    if isinstance(v, strs.Str):
        if old is not None and old[0] != "text":
            raise Unsupported("a cell of two kinds")
        return ("text", size)
    if isinstance(v, MapVal):
        if old is not None and old[0] != "map":
            raise Unsupported("a cell of two kinds")
        d = dict(old[3]) if old else {}
        for k, oid in v.d.items():
            d[k] = join(d.get(k, None), ctx, st, oid, 0, st.heap[oid].size)
        for k, (_, oid) in (v.maybe or {}).items():
            if k not in v.d:
                d[k] = join(d.get(k, None), ctx, st, oid, 0, st.heap[oid].size)
        return ("map", size, v.ordered, d)
    if v is engine.UNDEF:
        return old
    if old is None or old == ("same", size, v):
        return ("same", size, v)
    raise Unsupported("a cell of %r" % (v,))


def join(rep, ctx, st, oid, off, size):
    out = Rep()
    out.c = dict(rep.c) if rep else {}
    o = st.heap[oid]
    for f, (n, v) in o.cells.items():
        if off <= f < off + size and v is not engine.UNDEF:
            out.c[f - off] = join_value(out.c.get(f - off), ctx, st, n, v, None)
    return out


def same_rep(a, b):
    if (a is None) != (b is None):
        return False
    if set(a.c) != set(b.c):
        return False
    for f, x in a.c.items():
        y = b.c[f]
        if x[:2] != y[:2]:
            return False
        if x[0] == "map":
            if set(x[3]) != set(y[3]) or not all(same_rep(x[3][k], y[3][k]) for k in x[3]):
                return False
        elif x != y:
            return False
    return True


def put(st, rep, oid, off, tag):
    """an arbitrary value of the representation at an object's offset"""
    for f, x in rep.c.items():
        o = st.heap[oid]
        n = tag + "+%d" % f
        if x[0] == "int":
            v = x[2] if x[2] == x[3] else vals.var(n, x[2], x[3])
        elif x[0] == "text":
            v = strs.mk([vals.leaf(n, lang.ALL)])
        elif x[0] == "map":
            maybe = {}
            for k, r in x[3].items():
                e = st.new(size_of(r), "heap", "map entry %r" % (k,))
                put(st, r, e.id, 0, "%s[%s]" % (n, k))
                e.cells[0] = (models.koff("string") if isinstance(k, str) else 4, strs.lit(k) if isinstance(k, str) else k)
                maybe[k] = (B("bool", ("has", n, k)), e.id)
            v = MapVal({}, x[2], maybe)
        else:
            v = x[2]
        o.cells[off + f] = (x[1], v)


def size_of(rep):
    return max((f + x[1] for f, x in rep.c.items()), default=8)


# ------------------------------------------------------------------------ running
_REPS = {}


class Class:
    """One class of the repository with its operations: {name: (function, arguments(st) -> list, postcondition)}"""

    def __init__(self, W, cls, deadline):
        self.W, self.cls, self.deadline = W, cls, deadline
        self.size = W.size(cls)
        self.rep = None

    def object(self, st, tag):
        o = st.new(self.size, "heap", tag)
        put(st, self.rep, o.id, 0, tag)
        return Ptr(o.id, 0)

    def run(self, e, st, fn, args):
        out = self.W.all(e, st, fn, args)
        if e.unsupported:
            raise Unsupported("; ".join(e.unsupported))
        if time.time() > self.deadline:
            raise Unsupported("time limit")
        return out

    def saturate(self, e, ctor, ops):
        """the representation all operations keep; counts the lemma's obligations"""
        W = self.W
        k = (id(W), self.cls)
        if k in _REPS:
            self.rep, n = _REPS[k]
            return n
        st = W.init.fork()
        o = st.new(self.size, "heap", self.cls)
        rep = None
        for s in self.run(e, st, ctor, [Ptr(o.id, 0)]):
            if s.done[0] != "ret":
                raise Unsupported("a constructor that throws")
            rep = join(rep, s.ctx, s, o.id, 0, self.size)
        self.rep = rep
        for rnd in range(12):
            new = self.rep
            n = 0
            for name, fn, mk in ops:
                st = W.init.fork()
                p = self.object(st, "self")
                for s in self.run(e, st, fn, mk(st, p)):
                    new = join(new, s.ctx, s, p.o, 0, self.size)
                    n += 1
            if same_rep(new, self.rep):
                _REPS[k] = self.rep, n
                return n
            self.rep = new
        raise Unsupported("no representation is kept by all operations of %s" % self.cls)


def string(st, s):
    o = st.new(32, "heap", "argument")
    o.cells[0] = (32, s)
    return Ptr(o.id, 0)


SETTER = {"year": "setYear", "month": "setMonth", "mday": "set_mDay", "wday": "set_wDay", "hour": "setHour", "min": "setMinute",
          "sec": "setSeconds", "tzoffset": "setTimeZoneOffset"}


def unknown_name():
    return strs.mk([vals.leaf("a name that is no field", lang.compl(lang.from_words(FIELDS)))])


def comp_ops(W):
    """[(name, function, arguments)] of a date's operations; the argument is 'arg'"""
    c = "parse::ParsedComponents::"
    arg = lambda: vals.var("arg", *I32)
    out = []
    for f in FIELDS:
        out.append((("set", f), W.fn(c + SETTER[f]), lambda st, p: [p, arg()]))
    for f in FIELDS + (None,):
        nm = (lambda f: lambda: strs.lit(f) if f else unknown_name())(f)
        out.append((("imply", f), W.fn(c + "implyComponent"), (lambda nm: lambda st, p: [p, string(st, nm()), arg()])(nm)))
        out.append((("certain", f), W.fn(c + "isCertain"), (lambda nm: lambda st, p: [p, string(st, nm())])(nm)))
    from sym import Reader
    for f in FIELDS:
        out.append((("get", f), W.fn(c + Reader.GET[f]), lambda st, p: [p]))
    return out


def asks(W):
    """operations that only read a date through its accessors"""
    c = "parse::ParsedComponents::"
    return [(("ask", f), W.fn(c + f), lambda st, p: [p]) for f in ("isPossibleDate",)]


def accessors_cut(reader, which):
    """the getters by their contract: numbers that depend on the date and field alone; which: pointer -> name of the date"""
    out = {}
    for f, g in reader.GET.items():
        def handler(e, st, a, name, params, f=f):
            return vals.var((which(e, st, a[0]), f), *I32)
        out["parse::ParsedComponents::" + g] = handler

    def certain(e, st, a, name, params):
        d = which(e, st, a[0])
        w = models.gets(e, st, a[1]).lit()
        if w is None:
            raise Unsupported("isCertain of an unknown name")
        return B("bool", (d, "certain", w)) if w in FIELDS else False
    out["parse::ParsedComponents::isCertain"] = certain
    return out


def any_month_end(e, st, a, name, params):
    return vals.var("the month's end", 28, 31)


EOM = models.CALB + "end_of_month_day"


class View:
    """Reads one field of a date through its accessors, on a copy of the state."""

    def __init__(self, cl, reader):
        self.cl, self.rd = cl, reader

    def both(self, e, st, v):
        """a truth value of the code: [(state, bool)]"""
        if v is engine.UNDEF:
            e.fails.append(engine.Fail("defined", "a truth value that was never set", st.ctx.copy(), "accessor"))
            return []
        if isinstance(v, Lin):
            v = vals.neg(vals.eq(v, 0))
        if isinstance(v, B):
            r = st.ctx.decide(v)
            if r is None:
                t = st.fork()
                st.ctx.assume(v)
                t.ctx.assume(vals.neg(v))
                return [(st, True), (t, False)]
            v = r
        return [(st, bool(v))]

    def field(self, e, st, p, f):
        """[(context, (certain, value))]"""
        out = []
        for s in self.cl.run(e, st, self.rd.certain_, [p, string(st, strs.lit(f))]):
            if s.done[0] != "ret":
                raise Unsupported("isCertain throws")
            for s, c in self.both(e, s, s.done[1]):
                t = st.fork()
                t.ctx = s.ctx
                for x in self.cl.run(e, t, self.rd.getters[f], [p]):
                    if x.done[0] != "ret":
                        raise Unsupported("a getter throws")
                    for ctx, v in signed(e, x, x.done[1]):
                        out.append((ctx, (c, v)))
        return out


def signed(e, st, v):
    """32-bit values as numbers: [(context, number)]"""
    if not isinstance(v, (int, Lin, B)):
        raise Unsupported("an accessor returned %r" % (v,))
    out, work = [], [st]
    while work:
        s = work.pop()
        try:
            out.append((s.ctx, e.sn(s, v, 32)))
        except vals.ForkOn as x:
            t = s.fork()
            s.ctx.assume(x.cond)
            t.ctx.assume(vals.neg(x.cond))
            work += [s, t]
    return out


def expected(op, f, pre):
    """abstract contract of a date's operations, field by field"""
    c, v = pre
    kind, g = op
    if g == f and kind == "set":
        return True, vals.var("arg", *I32)
    if g == f and kind == "imply":
        return (c, v) if c else (False, vals.var("arg", *I32))
    return pre


def result(e, kinds=None):
    return {"obl": {}, "paths": 0, "failed": [], "undecided": [], "notes": [], "engine": e, "kinds": kinds}


def count(d, k, n=1):
    d["obl"][k] = d["obl"].get(k, 0) + n


def value_of(ctx, v, default=0):
    if isinstance(v, (int, bool)):
        return int(v)
    m = ctx.model()
    if m is None:
        return default
    x = m.eval(vals.zlin(v), model_completion=True)
    return x.as_long()


def partly(task):
    """a task that keeps what it found when it stops early"""
    def run(*a):
        out = {}
        try:
            task(*a, out=out)
        except Enough:
            pass
        except Unsupported as x:
            if not out:
                raise
            out["undecided"].append(str(x))
        e = out.pop("engine")
        for x in e.fails:
            out["failed"].append({"kind": x.kind, "what": "%s in %s" % (x.what, x.where), "inputs": [], "soft": True})
            out["undecided"].append("%s: %s in %s" % (x.kind, x.what, x.where))
        for k, n in e.obl.items():
            count(out, k, n)
        out["queries"], out["unknown"] = vals.STAT.get("queries", 0), vals.STAT.get("unknown", 0)
        out["steps"] = e.steps
        out["inlined"], out["contracts"] = e.inlined, e.contracts
        return out
    return run


@partly
def comp_task(W, reader, op, deadline, only, out):
    """one operation of a date: its effect on every field (only: the kinds of obligations asked for)"""
    vals.reset()
    e = W.engine()
    e.deadline = deadline
    cl = Class(W, "parse::ParsedComponents", deadline)
    ops = comp_ops(W)
    ctor = W.fn("parse::ParsedComponents::ParsedComponents", "()")
    view = View(cl, reader)
    n = cl.saturate(e, ctor, ops)
    e = W.engine()
    e.deadline = deadline
    out.update(result(e, kinds=only))
    if op == ("new", None):
        count(out, "invariant", n + 1)
        st = W.init.fork()
        o = st.new(cl.size, "heap", "date")
        for s in cl.run(e, st, ctor, [Ptr(o.id, 0)]):
            s.done, s.frames = None, []
            for f in FIELDS:
                for ctx, (c, v) in view.field(e, s, Ptr(o.id, 0), f):
                    check(out, ctx, "certain", "a new date: %s explicit" % f, not c, lambda ctx: programs([], None, []))
                    check(out, ctx, "value", "a new date: %s" % f, vals.eq(v, 0), lambda ctx: programs([], None, []))
    else:
        name, fn, mk = [x for x in ops + asks(W) if x[0] == op][0]
        eo = e
        if op[0] == "ask":
            eo = W.engine()
            eo.cut.update(accessors_cut(reader, lambda e, st, p: "date"))
            eo.cut[EOM] = any_month_end
        for f in FIELDS:
            st = W.init.fork()
            p = cl.object(st, "self")
            for ctx, pre in view.field(e, st, p, f):
                s0 = st.fork()
                s0.ctx = ctx
                for s in cl.run(eo, s0, fn, mk(s0, p)):
                    out["paths"] += 1
                    what = "%s %s" % op
                    mkin = lambda ctx, f=f, pre=pre: programs([(f, pre)], op, ctx)
                    if s.done[0] != "ret" and op[0] != "ask":
                        check(out, s.ctx, "value", "%s throws" % what, False, mkin)
                        continue
                    ans = s.done[1]
                    s.done, s.frames = None, []
                    if op[0] == "certain" and (op[1] == f or op[1] is None):
                        for s2, b in view.both(e, s.fork(), ans):
                            check(out, s2.ctx, "certain", "the answer to isCertain(%s)" % op[1], b == (pre[0] if op[1] else False), mkin)
                    if op[0] == "get" and op[1] == f:
                        for c2, v in signed(e, s.fork(), ans):
                            check(out, c2, "value", "the value of %s" % f, vals.eq(v, pre[1]), mkin)
                    want = expected(op, f, pre)
                    for c2, (c, v) in view.field(e, s, p, f):
                        check(out, c2, "certain", "%s explicit after %s" % (f, what), c == want[0], mkin)
                        check(out, c2, "value", "%s after %s" % (f, what), vals.eq(v, want[1]), mkin)

def check(out, ctx, kind, what, cond, inputs):
    if out["kinds"] and kind not in out["kinds"]:
        return
    if cond is True:
        count(out, kind)
        return
    if cond is False:
        r, _ = ctx.check(list(ctx.pc), hard=True)
        import z3
        if r == z3.unsat:
            count(out, kind)
            return
        r = "refuted"
    else:
        r, _ = ctx.valid(cond)
    if r == "proved":
        count(out, kind)
    elif r == "refuted":
        if isinstance(cond, B):
            ctx = ctx.copy()
            ctx.assume(vals.neg(cond))
        try:
            ins = inputs(ctx)
        except Exception as x:
            ins = []
        # an arbitrary representation may be one no history reaches: reported only when it replays
        out["failed"].append({"kind": kind, "what": what, "inputs": ins, "soft": True,
                              "detail": "path condition: " + "; ".join(str(b) for b in ctx.pc)[-500:]})
        out["undecided"].append("%s fails from an arbitrary representation" % what)
        if len(out["failed"]) > 12:
            raise Enough()
    else:
        out["undecided"].append("%s undecided" % what)


def programs(pre, op, ctx):
    """histories that reach the state of a counterexample, then the operation: ("expect", request, answer)"""
    import random
    import suites
    r = random.Random(7)
    out = []
    for n in range(40):
        m = [spec.Comps(), spec.Comps()]
        ops, ans = [], []

        def do(k, f, v):
            ops.append("%s0%d=%d" % (k, FIELDS.index(f), v))
            (m[0].set if k == "s" else m[0].imply)(f, v)

        todo = []
        for f in FIELDS:
            c = dict(pre).get(f)
            if c is not None:
                v = value_of(ctx, c[1]) if n < 30 else r.choice(suites.VALUES)
                h = [("s", f, v)] if c[0] else [("i", f, v)] if v or r.random() < .5 else []
                if r.random() < .5:
                    h = [(r.choice("si") if c[0] else "i", f, r.choice(suites.VALUES))] + h
            else:
                h = [(r.choice("si"), f, r.choice(suites.VALUES)) for _ in range(r.choice([0, 0, 1, 1, 2]))]
            todo.append(h)
        r.shuffle(todo)
        for h in todo:
            for x in h:
                do(*x)
        if op is not None:
            kind, f = op
            v = value_of(ctx, vals.var("arg", *I32)) if n < 20 else r.choice(suites.VALUES)
            if kind in ("set", "imply") and f:
                do(kind[0], f, v)
            elif kind == "imply":
                ops.append("u0")
            elif kind == "certain" and not f:
                ops.append("q0")
                ans.append("no")
            elif kind in ("certain", "get", "ask"):
                ops.append("v")
                ans.append("/".join(suites.full(x) for x in m))
            if r.random() < .3:
                ops.append("v")
                ans.append("/".join(suites.full(x) for x in m))
        ans.append("/".join(suites.full(x) for x in m))
        out.append(("expect", "comp " + " ".join(ops), " ".join(ans)))
    return out


def comp_tasks(W, reader, only, prop):
    ops = [("new", None)] + [x[0] for x in comp_ops(W) + asks(W)]
    nm = {"set": "set %s", "imply": "implyComponent(%s)", "certain": "isCertain(%s)", "get": "get %s", "ask": "%s", "new": "constructor%s"}
    return [("parse::ParsedComponents: " + nm[k] % (f or ("unknown name" if k != "new" else "")), (k, f)) for k, f in ops]


# ------------------------------------------------------------------------ results
R = "parse::ParsedResult::"
_TEXT = {}


def NEWTEXT():
    """the text an operation is given"""
    if _TEXT.get("n") is not vals.LEAVES or _TEXT["i"] >= len(vals.LEAVES) or vals.LEAVES[_TEXT["i"]][0] != "new text":
        _TEXT["n"], _TEXT["i"] = vals.LEAVES, vals.leaf("new text", lang.ALL)
    return strs.mk([_TEXT["i"]])


INDEX = lambda: vals.var("new index", 0, I32[1])


def res_ops(W, reader):
    """[(name, function, arguments)]: the operations on a result that change it or ask it something"""
    out = [(("setIndex", None), W.fn(R + "setIndex"), lambda st, p: [p, INDEX()]),
           (("setText", None), W.fn(R + "setText"), lambda st, p: [p, string(st, NEWTEXT())]),
           (("makeEndDateValid", None), W.fn(R + "makeEndDateValid"), lambda st, p: [p])]
    for n, t in enumerate(spec.TAGS):
        k = reader.tagno[n]
        out.append((("setTag", t), W.fn(R + "setTag"), (lambda k: lambda st, p: [p, k])(k)))
        out.append((("getTag", t), W.fn(R + "getTag"), (lambda k: lambda st, p: [p, k])(k)))
    for f in ("getIndex", "textLength", "isEmpty", "end"):
        out.append(((f, None), W.fn(R + f), lambda st, p: [p]))
    return out


def sub_ops(W, reader):
    """a date's operations on the start and end of a result"""
    out = []
    for nm, off in (("start", reader.start_off), ("endd", reader.endd_off)):
        for op, fn, mk in comp_ops(W):
            out.append((("sub",), fn, (lambda mk, off: lambda st, p: mk(st, Ptr(p.o, vals.add(p.f, off))))(mk, off)))
    return out


def copy_ctor(W):
    return W.fn(R + "ParsedResult", "(parse::ParsedResult const&)")


def copied(cl, e, st, src, ctor=None):
    """copy-constructs (or runs the constructor given): [(state, pointer)]"""
    o = st.new(cl.size, "heap", "copy")
    out = []
    for s in cl.run(e, st, ctor or copy_ctor(cl.W), [Ptr(o.id, 0), src]):
        if s.done[0] != "ret":
            raise Unsupported("a copy that throws")
        s.done, s.frames = None, []
        out.append((s, Ptr(o.id, 0)))
    return out


def given_up(cl, e, st, src, to):
    """assigns from a result that is given up"""
    out = []
    for s in cl.run(e, st, cl.W.fn("vf_moveassigned"), [to, src]):
        if s.done[0] != "ret":
            raise Unsupported("an assignment that throws")
        s.done, s.frames = None, []
        out.append((s, to))
    return out


def ended(view, e, s, p):
    """the cases in which the result has an end: of another's end date nothing is promised"""
    out = []
    for ctx, b in view.item(e, s, p, ("end", None)):
        if b:
            out.append(s.fork())
            out[-1].ctx = ctx
    return out


ITEMS = [("index", None), ("text", None), ("end", None)] + [("tag", t) for t in spec.TAGS] + \
    [("start", f) for f in FIELDS] + [("endd", f) for f in FIELDS]


class ResView(View):
    def item(self, e, st, p, it):
        """[(context, value)] of one observable of the result at p"""
        k, x = it
        rd = self.rd
        if k == "text":
            s = st.fork()
            return [(s.ctx, rd.text(s, p))]
        if k in ("start", "endd"):
            return self.field(e, st, Ptr(p.o, vals.add(p.f, rd.start_off if k == "start" else rd.endd_off)), x)
        fn, args = {"index": (rd.index_, [p]), "end": (rd.end_, [p]), "tag": (rd.tag_, [p, rd.tagno[spec.TAGS.index(x)] if k == "tag" else 0])}[k]
        out = []
        for s in self.cl.run(e, st, fn, args):
            if s.done[0] != "ret":
                raise Unsupported("an accessor throws")
            if k == "index":
                out += unsigned(e, s, s.done[1])
            else:
                out += [(a.ctx, b) for a, b in self.both(e, s, s.done[1])]
        return out


def unsigned(e, st, v, n=32):
    if not isinstance(v, (int, Lin, B)):
        raise Unsupported("an accessor returned %r" % (v,))
    out, work = [], [st]
    while work:
        s = work.pop()
        try:
            out.append((s.ctx, e.un(s, v, n)))
        except vals.ForkOn as x:
            t = s.fork()
            s.ctx.assume(x.cond)
            t.ctx.assume(vals.neg(x.cond))
            work += [s, t]
    return out


def equal(ctx, it, a, b):
    """the condition under which two values of an observable agree"""
    if it[0] == "text":
        import sym
        r = sym.same_text(ctx, a, b)
        if r is None:
            raise Unsupported("texts cannot be compared")
        return r
    if it[0] == "index":
        return vals.eq(a, b)
    if it[0] in ("start", "endd"):
        return False if a[0] != b[0] else vals.eq(a[1], b[1])
    return a == b


def res_expected(op, it, pre):
    k, x = op
    if k == "setIndex" and it[0] == "index":
        return INDEX()
    if k == "setText" and it[0] == "text":
        return NEWTEXT()
    if k == "makeEndDateValid" and it[0] == "end":
        return True
    if k == "setTag" and it == ("tag", x):
        return True
    return pre


def prepare(W, reader, what):
    """the representations, found once before the tasks are given out"""
    try:
        vals.reset()
        e = W.engine()
        e.deadline = time.time() + 120
        if what == "comp":
            Class(W, "parse::ParsedComponents", e.deadline).saturate(e, W.fn("parse::ParsedComponents::ParsedComponents", "()"), comp_ops(W))
        else:
            res_class(W, reader, e, e.deadline)
    except Unsupported:
        pass                              # each task says so


def res_class(W, reader, e, deadline):
    cl = Class(W, "parse::ParsedResult", deadline)
    n = cl.saturate(e, W.fn(R + "ParsedResult", "()"), res_ops(W, reader) + sub_ops(W, reader))
    # the other constructors and copying stay inside the representation
    k = (id(W), "copies")
    while k not in _REPS:
        new = cl.rep
        st = W.init.fork()
        o = st.new(cl.size, "heap", "result")
        tx = string(st, NEWTEXT())
        for s in cl.run(e, st, W.fn(R + "ParsedResult", "(boost"), [Ptr(o.id, 0)] + ptime_args(W, e, st) + [INDEX(), tx]):
            new = join(new, s.ctx, s, o.id, 0, cl.size)
        st = W.init.fork()
        p = cl.object(st, "self")
        st2 = st.fork()
        for s, q in copied(cl, e, st, p) + copied(cl, e, st2, p, W.fn("vf_moved")):
            new = join(new, s.ctx, s, q.o, 0, cl.size)
            n += 1
        if same_rep(new, cl.rep):
            _REPS[k] = n
        else:
            cl.rep = new
            del _REPS[(id(W), cl.cls)]
            # operations again from the wider representation
            cl.rep = widen(cl, e, new, res_ops(W, reader) + sub_ops(W, reader))
            _REPS[(id(W), cl.cls)] = cl.rep, n
    return cl, n


def widen(cl, e, rep, ops):
    for rnd in range(12):
        cl.rep, new = rep, rep
        for name, fn, mk in ops:
            st = cl.W.init.fork()
            p = cl.object(st, "self")
            for s in cl.run(e, st, fn, mk(st, p)):
                new = join(new, s.ctx, s, p.o, 0, cl.size)
        if same_rep(new, rep):
            return rep
        rep = new
    raise Unsupported("no representation is kept by all operations of %s" % cl.cls)


def ptime_args(W, e, st):
    """a point in time passed by value"""
    fn = W.m.funcs[W.fn(R + "ParsedResult", "(boost")].parse()
    t = fn.params[1][0]
    v = vals.var("anchor", -(1 << 63), (1 << 63) - 1)
    if t[0] == "p":
        o = st.new(8, "heap", "anchor")
        o.cells[0] = (8, v)
        return [Ptr(o.id, 0)]
    return [v]


@partly
def res_task(W, reader, op, deadline, out):
    vals.reset()
    e = W.engine()
    e.deadline = deadline
    cl, n = res_class(W, reader, e, deadline)
    e = W.engine()
    e.deadline = deadline
    view = ResView(cl, reader)
    out.update(result(e))
    init = W.init
    if op[0] in ("new", "make"):
        count(out, "invariant", n)
        for it in ITEMS:
            st = init.fork()
            o = st.new(cl.size, "heap", "result")
            p = Ptr(o.id, 0)
            if op[0] == "new":
                runs = cl.run(e, st, W.fn(R + "ParsedResult", "()"), [p])
            else:
                runs = cl.run(e, st, W.fn(R + "ParsedResult", "(boost"), [p] + ptime_args(W, e, st) + [INDEX(), string(st, NEWTEXT())])
            for s in runs:
                s.done, s.frames = None, []
                want = {"index": 0 if op[0] == "new" else INDEX(), "text": strs.EMPTY if op[0] == "new" else NEWTEXT(),
                        "start": (False, 0), "endd": (False, 0)}.get(it[0], False)
                for ctx, v in view.item(e, s, p, it):
                    check(out, ctx, it[0], "%s of a new result" % (it,), equal(ctx, it, v, want), lambda ctx: result_programs(op, it, want, ctx))
    for it in ITEMS if op[0] not in ("new", "make") else ():
        st = init.fork()
        p = cl.object(st, "self")
        q = cl.object(st, "other") if op[0] in ("assign", "moveassign") else None
        for ctx, pre in view.item(e, st, p, it):
            mkin = lambda ctx, it=it, pre=pre: result_programs(op, it, pre, ctx)
            s0 = st.fork()
            s0.ctx = ctx
            if op[0] in ("move", "moveassign"):
                for s, t in copied(cl, e, s0, p, W.fn("vf_moved")) if q is None else given_up(cl, e, s0, p, q):
                    out["paths"] += 1
                    for s2 in ended(view, e, s, t) if it[0] == "endd" else [s]:
                        agree(out, view, e, s2, t, it, pre, mkin, "what was moved: ")
                continue
            if op[0] in ("copy", "assign", "copychange", "selfassign"):
                for s, c in copied(cl, e, s0, p):
                    targets = [(s, c)]
                    if op[0] in ("assign", "selfassign"):
                        targets = []
                        to = q if op[0] == "assign" else p
                        for x in cl.run(e, s, W.fn(R + "operator="), [to, c]):
                            if x.done[0] != "ret":
                                check(out, x.ctx, it[0], "an assignment throws", False, mkin)
                                continue
                            if x.done[1] != to:
                                check(out, x.ctx, it[0], "an assignment returns another object", False, mkin)
                            x.done, x.frames = None, []
                            targets.append((x, to))
                    for s, t in targets:
                        out["paths"] += 1
                        if op[0] != "copychange":
                            if it[0] == "endd":
                                for ctx2, b in view.item(e, s, p, ("end", None)):
                                    if not b:
                                        continue          # a result without an end: nothing promised about its end date
                                    s2 = s.fork()
                                    s2.ctx = ctx2
                                    agree(out, view, e, s2, t, it, pre, mkin, "the copy's")
                            else:
                                agree(out, view, e, s, t, it, pre, mkin, "the copy's")
                            if it[0] != "endd" or op[0] != "selfassign":
                                agree(out, view, e, s, p, it, pre, mkin, "the original's")
                            continue
                        # later changes to the copy leave the original, and the other way round
                        for a, b, who in ((t, p, "the original's"), (p, t, "the copy's")):
                            for s2 in changed(cl, reader, e, s, a, op[1]):
                                if it[0] == "endd" and b is t:
                                    for ctx2, z in view.item(e, s2, b, ("end", None)):
                                        if z:
                                            s3 = s2.fork()
                                            s3.ctx = ctx2
                                            agree(out, view, e, s3, b, it, pre, mkin, who)
                                else:
                                    agree(out, view, e, s2, b, it, pre, mkin, who)
                continue
            name, fn, mk = [x for x in res_ops(W, reader) + part_ops(W, reader) if x[0] == op][0]
            for s in cl.run(e, s0, fn, mk(s0, p)):
                out["paths"] += 1
                if s.done[0] != "ret":
                    check(out, s.ctx, it[0], "%s throws" % op[0], False, mkin)
                    continue
                ans = s.done[1]
                s.done, s.frames = None, []
                if op[0] == "getTag" and it == ("tag", op[1]) or op[0] == "end" and it[0] == "end":
                    for s2, b in view.both(e, s.fork(), ans):
                        check(out, s2.ctx, it[0], "the answer of %s" % op[0], b == pre, mkin)
                if op[0] == "getIndex" and it[0] == "index":
                    for c2, v in unsigned(e, s.fork(), ans):
                        check(out, c2, it[0], "the answer of %s" % op[0], vals.eq(v, pre), mkin)
                if op[0] == "textLength" and it[0] == "text":
                    for c2, v in unsigned(e, s.fork(), ans, 64):
                        check(out, c2, it[0], "the length of the text", vals.eq(v, strs.length(c2, pre)), mkin)
                if op[0] == "isEmpty" and it[0] == "index":
                    for s2, b in view.both(e, s.fork(), ans):
                        ln = strs.length(s2.ctx, rdtext(view, s2, p))
                        emp = vals.conj(vals.eq(pre, 0), vals.eq(ln, 0))
                        check(out, s2.ctx, "empty", "the answer of isEmpty", emp if b else vals.neg(emp), mkin)
                want = res_expected(op, it, pre) if op[0] != "sub" else pre if (it[0] != op[1] or it[1] != op[2][1]) else expected(op[2], it[1], pre)
                agree(out, view, e, s, p, it, want, mkin, "after %s, the" % (op[0],))

def rdtext(view, st, p):
    return view.rd.text(st, p)


def part_ops(W, reader):
    """setting a field of the start or the end leaves the rest of the result"""
    out = []
    for nm, off in (("start", reader.start_off), ("endd", reader.endd_off)):
        for op, fn, mk in comp_ops(W):
            if op in (("set", "month"), ("imply", "hour")):
                out.append((("sub", nm, op), fn, (lambda mk, off: lambda st, p: mk(st, Ptr(p.o, vals.add(p.f, off))))(mk, off)))
    return out


CHANGES = ("position", "tags", "start", "endd")


def changed(cl, reader, e, st, p, what):
    """states after a part of the result at p was changed, one change at a time"""
    W = cl.W
    arg = vals.var("arg", *I32)
    if what == "position":
        todo = [(W.fn(R + "setIndex"), lambda s: [p, INDEX()]), (W.fn(R + "setText"), lambda s: [p, string(s, NEWTEXT())]),
                (W.fn(R + "makeEndDateValid"), lambda s: [p])]
    elif what == "tags":
        todo = [(W.fn(R + "setTag"), (lambda k: lambda s: [p, k])(k)) for k in reader.tagno]
    else:
        q = Ptr(p.o, vals.add(p.f, reader.start_off if what == "start" else reader.endd_off))
        todo = [(W.fn("parse::ParsedComponents::" + SETTER[f]), lambda s: [q, arg]) for f in FIELDS]
    for fn, mk in todo:
        s = st.fork()
        for x in cl.run(e, s, fn, mk(s)):
            x.done, x.frames = None, []
            yield x


def agree(out, view, e, st, p, it, want, mkin, who):
    for ctx, v in view.item(e, st, p, it):
        check(out, ctx, it[0], "%s %s" % (who, " ".join(x for x in it if x)), equal(ctx, it, v, want), mkin)


def res_tasks(W, reader):
    ops = [("new", None), ("make", None), ("copy", None), ("assign", None), ("selfassign", None), ("move", None), ("moveassign", None), *[("copychange", c) for c in CHANGES]]
    ops += [x[0] for x in res_ops(W, reader) + part_ops(W, reader)]
    return [("parse::ParsedResult: " + " ".join(str(y) for y in op if y), op) for op in ops]


def result_programs(op, it, pre, ctx):
    """histories of results for a counterexample: ("expect", request, answer)"""
    import random
    import suites
    r = random.Random(11)
    out = []
    for n in range(60):
        q, a = suites.result_program(r, result_bias(op, it, pre, ctx, r))
        out.append(("expect", q, a))
    return out


def result_bias(op, it, pre, ctx, r):
    """operations to put between the random ones"""
    k = op[0]
    s, o = r.randint(0, 2), r.randint(0, 2)
    idx = value_of(ctx, INDEX()) if r.random() < .5 else r.choice([0, 1, 2147483647])
    ops = []
    if k in ("copy", "assign", "copychange", "move", "moveassign"):
        ops.append((r.choice("=CL"), s, o))
    elif k == "selfassign":
        ops.append(("=", s, s))
    elif k == "setIndex":
        ops.append(("x", s, idx))
    elif k == "setText":
        ops.append(("X", s, r.choice(["", "a", "some longer text"])))
    elif k in ("setTag", "getTag"):
        ops.append(("t" if k == "setTag" else "g", s, spec.TAGS.index(op[1])))
    elif k == "makeEndDateValid":
        ops.append(("e", s, 0))
    elif k == "sub" and op[1] == "start":
        ops.append(("s", s, (FIELDS.index(op[2][1]), value_of(ctx, vals.var("arg", *I32)))))
    return ops + [("m", s, 0), ("v", s, 0)]


# ------------------------------------------------------------------------ rendering and possibility
class Poison:
    """Private state of a date that callers reach through its accessors only."""

    def __repr__(self):
        return "the private state of a date"


def opaque_result(W, reader, e, deadline):
    """an arbitrary result, its dates known through their accessors: (state, pointer, cuts)"""
    cl, n = res_class(W, reader, e, deadline)
    st = W.init.fork()
    p = cl.object(st, "self")
    o = st.heap[p.o]
    dates = {}
    for nm, off in (("start", reader.start_off), ("endd", reader.endd_off)):
        dates[off] = nm
        for f in list(o.cells):
            if off <= f < off + reader.csize:
                o.cells[f] = (o.cells[f][0], Poison())

    def which(e, st, q):
        if isinstance(q, Ptr) and q.o == p.o and isinstance(q.f, int) and q.f in dates:
            return dates[q.f]
        raise Unsupported("another date")
    return cl, st, p, accessors_cut(reader, which)


def sym_comps(nm):
    c = spec.Comps()
    for f in FIELDS:
        c.f[f] = (True, vals.var((nm, f), *I32))
    return c


def shown(ctx, r):
    """a result of a counterexample, written for the driver"""
    import oracle
    v = spec.Res(0, "x", spec.Comps(), spec.Comps() if r.end is not None else None)
    v.tags = set(r.tags)
    m = ctx.model()
    for a, b in ((v.start, r.start), (v.end, r.end)):
        if a is None:
            continue
        for f in FIELDS:
            x = b.f[f][1]
            k = m.eval(vals.zlin(x), model_completion=True).as_long() if m is not None and not isinstance(x, int) else 0 if not isinstance(x, int) else x
            a.set(f, k)
    return v


def near(v, r):
    """neighbours of a counterexample"""
    import suites
    out = [v]
    for n in range(40):
        w = spec.Res(0, "x", v.start.copy(), v.end.copy() if v.end else None)
        w.tags = set(v.tags)
        for c in (w.start, w.end):
            if c is None:
                continue
            if n >= 10 and r.random() < .6:
                x = suites.random_comps(r, True)
                for f in FIELDS:
                    if r.random() < .7:
                        c.f[f] = x.f.get(f, (False, 0))
            for f in FIELDS:
                if c.f.get(f, (False, 0))[0] and r.random() < .4:
                    c.f[f] = (False, c.f[f][1])
                if n >= 20 and r.random() < .1:
                    c.f[f] = (r.random() < .5, r.choice(suites.EDGE[f]))
        out.append(w)
    return out


def asks_of(kind):
    """requests for a result: its rendering or its possibility"""
    def make(ctx, r):
        import random
        import oracle
        import suites
        out = []
        for v in near(shown(ctx, r), random.Random(3)):
            if kind == "render":
                if not spec.possible(spec.CAL, v):
                    continue
                try:
                    w = spec.render_text(spec.render(spec.CAL, v))
                except spec.NoResult:
                    continue
                out.append(("expect", "render %s %s" % (suites.REF, oracle.show_result(v)), w))
            else:
                out.append(("expect", "possible %s %s" % (suites.REF, oracle.show_result(v)),
                            ("yes" if spec.possible(spec.CAL, v) else "no") + ("+" if spec.possible_comps(spec.CAL, v.start) else "")))
        return out
    return make


def firm(out, ctx, kind, what, cond, inputs):
    """check() for states that all occur: a refuted obligation stands even when not replayed"""
    n = len(out["failed"])
    k = len(out["undecided"])
    try:
        check(out, ctx, kind, what, cond, inputs)
    finally:
        for f in out["failed"][n:]:
            f["soft"] = False
            del out["undecided"][k:]


@partly
def ask_task(W, reader, kind, deadline, out):
    """toDate / hasPossibleDates of an arbitrary result against the contract"""
    import sym
    vals.reset()
    e = W.engine()
    e.deadline = deadline
    cl, st, p, cuts = opaque_result(W, reader, e, deadline)
    e = W.engine()
    e.deadline = deadline
    out.update(result(e))
    view = ResView(cl, reader)
    cal = vals.SymCal()
    fn = W.fn(R + ("toDate" if kind == "render" else "hasPossibleDates"))
    make = asks_of(kind)
    for ctx, en in view.item(e, st, p, ("end", None)):
        s0 = st.fork()
        s0.ctx = ctx
        for ctx, tz in view.item(e, s0, p, ("tag", "ExtractTimeZoneAbbreviation")):
            r = spec.Res(0, "", sym_comps("start"), sym_comps("endd") if en else None)
            if tz:
                r.tags.add("ExtractTimeZoneAbbreviation")
            mk = lambda ctx: make(ctx, r)

            def contract(ctx):
                if not spec.possible(cal, r):
                    return False
                if kind == "possible":
                    return True
                sh = r.start.get("tzoffset") * spec.MINUTE if tz else 0
                ts = [spec.instant(cal, c) + sh for c in ((r.start, r.end) if en else (r.start,))]
                for t in ts:
                    if t < spec.CAL.MIN * spec.DAY or t >= (spec.CAL.MAX + 1) * spec.DAY:
                        raise spec.Unspecified("rendered outside the calendar")
                return ts
            for want, c in sym.explore(ctx, contract):
                if want == "open" or kind == "render" and want is False:
                    continue
                s = st.fork()
                s.ctx = c
                e2 = W.engine()
                e2.deadline = deadline
                e2.cut.update(cuts)
                o = s.new(32, "heap", "text")
                runs = cl.run(e2, s, fn, [Ptr(o.id, 0), p] if kind == "render" else [p])
                for k, n in e2.obl.items():
                    count(out, k, n)
                for x in e2.fails:
                    firm(out, x.ctx, x.kind, "%s in %s" % (x.what, x.where), False, mk)
                e.inlined |= e2.inlined
                e.contracts |= e2.contracts
                e.steps += e2.steps
                for x in runs:
                    out["paths"] += 1
                    if x.done[0] != "ret":
                        firm(out, x.ctx, "exception", "%s throws" % fn, False, mk)
                        continue
                    v = x.done[1]
                    x.done, x.frames = None, []
                    if kind == "possible":
                        for y, b in view.both(e, x, v):
                            firm(out, y.ctx, "possible", "hasPossibleDates", b == want, mk)
                        continue
                    tx = x.heap[o.id].cells[0][1].p
                    times = [q for q in tx if isinstance(q, tuple)]
                    rest = [q for q in tx if not isinstance(q, tuple)]
                    if len(times) != len(want) or rest != ([" - "] if len(want) > 1 else []) or any(q[0] != "time" for q in times):
                        firm(out, x.ctx, "rendering", "the text's form", False, mk)
                        continue
                    if len(want) > 1 and tx[1] != " - ":
                        firm(out, x.ctx, "rendering", "the text's form", False, mk)
                        continue
                    for nm, q, t in zip(("start", "end"), times, want):
                        firm(out, x.ctx, "rendering", "the rendered %s" % nm, vals.eq(vals.unkey(q[1]), t), mk)
