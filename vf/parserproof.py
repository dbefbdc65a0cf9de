"""extract() of each parser against its contract, for every way its pattern can match."""
import time

import engine
import lang
import match
import models
import spec
import strs
import sym
import vals
from engine import Ptr
from vals import Unsupported

CLASS = {"casualdate": "ENCasualDateParser", "casualtime": "ENCasualTimeParser", "weekday": "ENDayOfWeekParser",
         "deadline": "ENDeadlineFormatParser", "ago": "ENTimeAgoFormatParser", "later": "ENTimeLaterParser",
         "relative": "ENRelativeDateFormatParser", "week": "ENWeekExpressionParser", "iso": "ENISOFormatParser",
         "monthday": "ENMonthNameMiddleEndianParser", "month": "ENMonthNameParser", "time": "ENTimeExpressionParser",
         "holiday": "ENHolidayParser"}


class Outcome:
    """What was established for one task (one shape of one function)."""

    def __init__(self, name):
        self.name = name
        self.obl = {}                    # kind -> discharged
        self.failed = []                 # (kind, what, sample environment)
        self.undecided = []
        self.paths = self.cases = 0
        self.steps = 0
        self.stat = {}
        self.secs = 0
        self.inlined, self.contracts = set(), set()
        self.notes = set()
        self.wit = None

    def add(self, e):
        for k, n in e.obl.items():
            self.obl[k] = self.obl.get(k, 0) + n
        self.undecided += e.unsupported
        self.paths += e.paths
        self.steps += e.steps
        self.inlined |= e.inlined
        self.contracts |= e.contracts


def ptime(st, ref, name="ref"):
    o = st.new(8, "heap", name)
    o.cells[0] = (8, ref.total)
    return Ptr(o.id, 0)


def fragments_cut(present):
    """extractDateTimeUnitFragments by its contract: some map from units to counts, a function of the text alone;
    present: the units it has, or None when it throws"""
    def handler(e, st, a, name, params):
        s = models.gets(e, st, a[1])
        c = sym.frag_bool(s, "too large")
        if present is None:
            st.ctx.assume(c)
            raise models.Throw(models.OOR, "stoi")
        st.ctx.assume(vals.neg(c))
        o = e.obj(st, a[0], "write")
        d = {}
        for u in sym.FRAG_UNITS:
            b = sym.frag_bool(s, u)
            if u in present:
                st.ctx.assume(b)
                x = models.zero_entry(e, st, o, u, "string", "double")
                x.cells[models.voff("string", "double")] = (8, sym.frag_num(s, u))
                d[u] = x.id
            else:
                st.ctx.assume(vals.neg(b))
        models.setmap(e, st, a[0], models.MapVal(d, True), models.mapsize("map"))
        return None
    return {"utils::extractDateTimeUnitFragments": handler}


def ordinal_cut():
    """argToOrdinalValue by its contract"""
    def handler(e, st, a, name, params):
        s = models.gets(e, st, a[0])
        return sym.ordinal_table(st.ctx, s)
    return {"utils::argToOrdinalValue": handler}


def extract_task(world, reader, parser, cls, shape, deadline, cuts=None, safety=False, counts=False):
    """one shape of one parser; returns an Outcome"""
    vals.reset()
    out = Outcome("%s %r" % (parser, shape))
    t0 = time.time()
    st, this = world.parser("parser::" + cls)
    mv = shape.instantiate()
    e = world.engine()
    e.deadline = deadline
    if cuts:
        e.cut.update(cuts)
    ref = sym.sym_ref()
    idx = vals.var("idx", 0, (1 << 31) - 1)
    tx = st.new(32, "heap", "text")
    tx.cells[0] = (32, models.mk(mv.tx))
    mo = st.new(32, "heap", "match")
    mo.cells[0] = (32, mv)
    refp = ptime(st, ref)
    for o in (mo, st.heap[refp.o]):
        o.kind = "const"
    res = st.new(reader.size, "heap", "result")
    fn = world.fn("parser::%s::extract" % cls)
    e.call(st, fn, [Ptr(res.id, 0), this, Ptr(tx.id, 0), Ptr(mo.id, 0), refp, idx])
    lead = 1 if parser in ("time", "month") else None
    span = mv.g[0]
    a = mv.g[1][1] if lead and mv.g.get(1) else span[0]
    want_text = models.mk(mv.tx[a:span[1]])

    def contract(ctx):
        r = spec.EXTRACT[parser](sym.SymCap(mv, ctx), ref, vals.SymCal())
        r.index, r.text = idx, want_text
        return r

    env = (mv, ref, idx)
    seen_fail = set()
    for s in e.run_all(st):
        out.notes |= s.notes
        kind, v = s.done
        try:
            if kind == "throw":
                if "_ZTISt11logic_error" not in engine.bases(world.m, v.type):
                    out.failed.append(("exception", "an exception execute() does not catch: %s" % v.type, s.ctx, env))
                    continue
                out.obl["exception"] = out.obl.get("exception", 0) + 1
                views = [(s, None)]
            elif safety and not counts or safety and not any(l[0] == "catch" for l in s.log):
                views = ()
            else:
                views = reader.views(s, Ptr(res.id, 0))
            for s, got in () if safety and kind == "throw" else views:
                for want, c in sym.explore(s.ctx, contract):
                    out.cases += 1
                    if want == "open" or safety and want != "none":
                        continue                 # safety: what could not be computed is not replaced
                    compare(out, reader, s, c, want, got, Ptr(res.id, 0), env)
                    if time.time() > deadline:
                        raise Unsupported("time limit")
        except Unsupported as x:
            out.undecided.append("%s (comparing a path with the contract)" % x)
        if len(out.failed) > 20 or len(out.undecided) > 50:
            break
    for f in e.fails:
        out.failed.append((f.kind, "%s in %s" % (f.what, f.where), f.ctx, env))
    out.add(e)
    reader.e.fails.clear()
    out.undecided += reader.e.unsupported
    reader.e.unsupported.clear()
    out.secs = time.time() - t0
    out.stat = dict(vals.STAT)
    return out


def compare(out, reader, s, c, want, got, p, env):
    """discharge: the result equals the contract's (or both are no result)"""
    if want == "none":
        if got is None:
            out.obl["no result"] = out.obl.get("no result", 0) + 1
            return
        impossible(out, reader, s, c, p, env, "a result where the contract has none")
        return
    if got is None:
        # thrown: the contract's result must not be a date
        for ok, cc in sym.explore(c, lambda ctx: spec.possible(vals.SymCal(), want)):
            if ok is False:
                out.obl["no result"] = out.obl.get("no result", 0) + 1
            else:
                fail(out, "result", "no result where the contract has one", cc, env)
        return
    bad = []
    for what, cond in sym.conds(c, want, got):
        if cond is True:
            out.obl[what] = out.obl.get(what, 0) + 1
            continue
        if cond is None:
            out.undecided.append("%s cannot be compared" % what)
            continue
        if cond is False:
            bad.append((what, False))
            continue
        r, _ = c.valid(cond)
        if r == "proved":
            out.obl[what] = out.obl.get(what, 0) + 1
        elif r == "refuted":
            bad.append((what, cond))
        else:
            out.undecided.append("%s undecided" % what)
    if not bad:
        return
    # unequal views are allowed only when neither is a date
    for ok, cc in sym.explore(c, lambda ctx: spec.possible(vals.SymCal(), want)):
        if ok is False:
            impossible(out, reader, s, cc, p, env, "a result where the contract has none")
        else:
            for what, cond in bad[:3]:
                c2 = cc.copy()
                if cond is not False:
                    c2.assume(vals.neg(cond))
                fail(out, "result", "%s differs from the contract" % what, c2, env)


def impossible(out, reader, s, c, p, env, what):
    s2 = s.fork()
    s2.ctx = c
    for cc, b in reader.possible(s2, p):
        if b:
            fail(out, "result", what, cc, env)
        else:
            out.obl["no result"] = out.obl.get("no result", 0) + 1


def fail(out, kind, what, ctx, env):
    r, _ = ctx.check([], hard=True) if not ctx.pc else ctx.check(list(ctx.pc), hard=True)
    import z3
    if r == z3.unsat:
        out.obl[what] = out.obl.get(what, 0) + 1
        return
    out.failed.append((kind, what, ctx, env))
