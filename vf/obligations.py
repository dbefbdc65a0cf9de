"""Which obligations each property is made of: the verifier's tasks per property.

A task is (name, function, arguments); the function returns the counts of discharged
obligations, the refuted ones with candidate inputs, and the undecided ones."""
import random
import time

import engine
import induct
import lang
import match
import models
import parserproof
import plan
import rx
import spec
import sym
import vals
from vals import Unsupported

_READER = {}
_PARSER = {}
_SHAPES = {}
SEED = 1


def reader(W):
    if id(W) not in _READER:
        _READER[id(W)] = sym.Reader(W)
    return _READER[id(W)]


def result(out, failed=()):
    """Outcome -> what the checking process gets"""
    own = lambda n: n.startswith(("parser::", "parse::", "utils::", "refiner::"))
    d = {"obl": out.obl, "paths": out.paths, "steps": out.steps, "secs": out.secs,
         "failed": list(failed), "undecided": list(out.undecided), "queries": out.stat.get("queries", 0),
         "unknown": out.stat.get("unknown", 0), "notes": sorted(out.notes)}
    return d


def names_of(W, ns):
    import names
    out = set()
    for n in ns:
        try:
            out.add(names.split(W.m.demangle(n))[0][:120])
        except Exception:
            out.add(str(n)[:120])
    return sorted(out)


# ------------------------------------------------------------------------ inputs from counterexamples
def spell_ref(ctx, m, ref, rnd):
    def val(v, default):
        if isinstance(v, int):
            return v
        if m is not None:
            x = m.eval(vals.zlin(v), model_completion=False)
            try:
                return x.as_long()
            except AttributeError:
                return default
        return default
    n = val(ref.dn, rnd.choice([spec.CAL.dn(2019, 3, 13), spec.CAL.dn(2020, 2, 29), spec.CAL.dn(2019, 12, 31), spec.CAL.dn(2023, 9, 9)]))
    n = min(max(n, spec.CAL.MIN), spec.CAL.MAX)
    y, mo, d = spec.CAL.ymd(n)
    t = "%04d-%02d-%02d_%02d:%02d:%02d" % (y, mo, d, val(ref.h, 10), val(ref.mi, 20), val(ref.s, 30))
    us = val(ref.us, 0)
    return t + (".%06d" % us if us else "")


def word_of(ctx, m, leaf, rnd, exact):
    L = ctx.lang(leaf)
    ws = L.words()
    if ws is not None and not ws:
        return None
    if ws is not None:
        if exact and m is not None:
            x = m.eval(vals.zchoice(leaf))
            try:
                k = x.as_long()
                for w in ws:
                    if vals._WORDS.get(w) == k:
                        return w
            except AttributeError:
                pass
        return rnd.choice(ws)
    a = vals._CONS.get(("num", leaf))
    if a is not None and m is not None and exact:
        x = m.eval(vals.zatom(a.i))
        try:
            v = x.as_long()
            for pad in range(0, 12):
                for f in ("%s", "+%s", "-%s"):
                    s = f % str(v).zfill(pad)
                    if s in L:
                        return s
        except AttributeError:
            pass
    ln = vals._CONS.get(("len", leaf))
    if ln is not None and m is not None and exact:
        x = m.eval(vals.zatom(ln.i))
        try:
            k = x.as_long()
            if k < 5000:
                J = lang.inter(L, lang.of_len(k, k))
                if not J.empty():
                    return J.random(rnd) if J.random(rnd) else J.shortest()
        except AttributeError:
            pass
    if a is not None and rnd.random() < 0.7:
        import conform
        for _ in range(20):
            s = rnd.choice(conform.DIGITS + conform.BIG)
            if s in L:
                return s
    return L.random(rnd)


def frag_text(m, s, frag, rnd):
    out = []
    for u in frag:
        v = rnd.choice([0, 1, 2, 11, 30, 400])
        if m is not None:
            x = m.eval(vals.zlin(sym.frag_num(s, u)))
            try:
                v = x.as_long()
            except AttributeError:
                pass
        out.append("%d %s" % (v, u))
    rnd.shuffle(out)
    return " ".join(out) + " "


def inputs(parser, ctx, mv, ref, rnd, n=24, frag=None):
    """candidate (parser, reference, text) triples for a refuted obligation"""
    m = ctx.model()
    out = []
    import conform
    pool = conform.Pool(rnd.randint(0, 1 << 30))
    for k in range(n):
        exact = k < n * 3 // 4
        t = []
        for i, x in enumerate(mv.tx):
            if isinstance(x, str):
                t.append(x)
                continue
            if i == 0:
                t.append(rnd.choice(["", "", "", "x ", "(", "7 "]) if k else "")
                continue
            if i == len(mv.tx) - 1:
                t.append(rnd.choice(["", "", "", " x", ".", ")"]) if k else "")
                continue
            if frag is not None and mv.g.get(2) and mv.g[2][0] == i:
                w = frag_text(m, mv.str(2), frag, rnd)
            elif frag is not None and mv.g.get(2) and mv.g[2][0] < i < mv.g[2][1]:
                w = ""
            else:
                w = word_of(ctx, m, x, rnd, exact)
            if w is None:
                break
            t.append(w)
        else:
            r = spell_ref(ctx, m, ref, rnd) if exact or rnd.random() < 0.3 else pool.ref()
            s = "".join(t)
            if "\n" in s or len(s) > 4000:
                s = s.replace("\n", " ")
            out.append(("parse", parser, r, s))
    return out


# ------------------------------------------------------------------------ the parsers
def parser_info(W, parser):
    k = (id(W), parser)
    if k not in _PARSER:
        cls = parserproof.CLASS[parser]
        st, o = W.parser("parser::" + cls)
        r = W.pattern(st, o, "parser::" + cls)
        _PARSER[k] = (cls, r)
    return _PARSER[k]


def lowered(n):
    """the expression on lower-case texts"""
    k = n[0]
    if k == "set":
        return ("set", n[1] & ~rx.UPPER)
    if k in ("cat", "alt"):
        return (k, tuple(lowered(x) for x in n[1]))
    if k == "grp":
        return ("grp", n[1], lowered(n[2]))
    if k in ("rep",):
        return ("rep", lowered(n[1])) + n[2:]
    if k == "la":
        return ("la", lowered(n[1])) + n[2:]
    return n


def same_pattern(W, parser):
    cls, r = parser_info(W, parser)
    a = rx.canon(lowered(rx.parse(r.pat, r.icase)[0]))
    b = rx.canon(lowered(rx.parse(spec.PATTERN[parser], True)[0]))
    return a == b, a, b


def t_pattern(W, parser, deadline):
    """the pattern is the contract's"""
    t0 = time.time()
    out = parserproof.Outcome(parser)
    eq, a, b = same_pattern(W, parser)
    failed = []
    if eq:
        out.obl["pattern"] = 1
    else:
        A, B = (lang.from_ast(rx.strip_groups(x), rx.UPPER) for x in (a, b))
        A, B = lang.inter(A, lang.LOWERCASE), lang.inter(B, lang.LOWERCASE)
        rnd = random.Random(SEED)
        ins = []
        import conform
        pool = conform.Pool(SEED)
        for what, D in (("matches", lang.minus(A, B)), ("misses", lang.minus(B, A))):
            if D.empty():
                continue
            ws = {D.shortest()}
            for _ in range(150):
                ws.add(D.random(rnd))
            ws.discard(None)
            for w in sorted(ws):
                for c in ("%s", "x %s y"):
                    ins.append(("parse", parser, pool.ref(), c % w.replace("\n", " ")))
        if ins:
            failed.append({"kind": "pattern", "what": "the expression of %s accepts other texts than its contract's" % parser, "inputs": ins, "soft": True})
            out.undecided.append("the expression of %s accepts other texts than its contract's" % parser)
        else:
            out.undecided.append("the expression of %s is another one than its contract's, for the same texts" % parser)
    out.secs = time.time() - t0
    return result(out, failed)


def shapes_of(W, parser):
    k = (id(W), parser)
    if k not in _SHAPES:
        _, r = parser_info(W, parser)
        _SHAPES[k] = match.shapes(r.pat, r.icase)
    return _SHAPES[k]


def t_extract(W, args, deadline, only=None, counts=False):
    """only: None - all obligations of the contract; else a test of obligation kinds, results are not compared"""
    parser, i = args[:2]
    cls, _ = parser_info(W, parser)
    sh = shapes_of(W, parser)[i]
    cuts = parserproof.fragments_cut(args[2]) if parser in FRAGMENTS else parserproof.ordinal_cut() if parser == "monthday" else None
    out = parserproof.extract_task(W, reader(W), parser, cls, sh, deadline, cuts, only is not None, counts)
    if only is not None:
        out.failed = [f for f in out.failed if only(f[0])]
        out.obl = {k: n for k, n in out.obl.items() if only(k)}
    eq = same_pattern(W, parser)[0]
    rnd = random.Random(SEED * 1009 + i)
    failed = []
    for kind, what, ctx, env in out.failed[:12]:
        f = {"kind": kind, "what": what, "detail": "path condition: " + "; ".join(str(b) for b in ctx.pc)[-600:]}
        if not eq:
            f["soft"] = True
        try:
            f["inputs"] = inputs(parser, ctx, env[0], env[1], rnd, 24, args[2] if len(args) > 2 else None)
        except Exception as x:
            f["inputs"] = []
            f["detail"] += " (no inputs: %s)" % x
        failed.append(f)
    d = result(out, failed)
    d["inlined"], d["contracts"] = names_of(W, out.inlined), names_of(W, out.contracts)
    return d


def t_safe(W, args, deadline):
    """no undefined behaviour, no exception that execute() does not catch"""
    return t_extract(W, args, deadline, lambda k: k != "frame", True)


def t_frame(W, args, deadline):
    """nothing but the result and locals is written"""
    return t_extract(W, args, deadline, lambda k: k == "frame")


def parser_tasks(W, parser, t_extract=t_extract):
    out = [("pattern of %s" % parser, t_pattern, parser)]
    try:
        shs = shapes_of(W, parser)
    except Exception as x:
        return out + [("matches of %s" % parser, t_raise, str(x))]
    for i, sh in enumerate(shs):
        name = "%s::extract, match %d of %d: %s" % (parserproof.CLASS[parser], i + 1, len(shs), " ".join(
            repr(p) if isinstance(p, str) else n for p, n in zip(sh.pieces, sh.names)))
        if parser not in FRAGMENTS:
            out.append((name, t_extract, (parser, i)))
            continue
        # the callee extractDateTimeUnitFragments by its contract: any set of units, any counts
        us = sym.FRAG_UNITS
        sets = [tuple(u for k, u in enumerate(us) if b >> k & 1) for b in range(1 << len(us))]
        for s in [None] + sorted(sets, key=lambda x: -len(x)):
            out.append((name + ", " + ("counts too large" if s is None else "units " + ("+".join(s) or "none")), t_extract, (parser, i, s)))
    return out


FRAGMENTS = ("ago", "later")


def t_comp(W, args, deadline):
    op, kinds = args
    d = induct.comp_task(W, reader(W), op, deadline, kinds)
    d["inlined"], d["contracts"] = names_of(W, d["inlined"]), names_of(W, d["contracts"])
    return d


def t_res(W, args, deadline):
    d = induct.res_task(W, reader(W), args, deadline)
    d["inlined"], d["contracts"] = names_of(W, d["inlined"]), names_of(W, d["contracts"])
    return d


def t_ask(W, args, deadline):
    d = induct.ask_task(W, reader(W), args, deadline)
    d["inlined"], d["contracts"] = names_of(W, d["inlined"]), names_of(W, d["contracts"])
    return d


def t_scan(W, args, deadline):
    import scanproof
    cls, kinds = args
    return filtered(W, scanproof.scan_task(W, reader(W), cls, kinds, deadline), kinds)


def filtered(W, d, kinds):
    for f in d["failed"]:
        if f["kind"] == "frame":                 # a write to an object that is not the scan's own
            f["soft"] = False
            d["undecided"] = [u for u in d["undecided"] if not u.startswith("frame:")]
    if kinds:
        d["obl"] = {k: n for k, n in d["obl"].items() if k in kinds}
        d["failed"] = [f for f in d["failed"] if f["kind"] in kinds]
    d["inlined"], d["contracts"] = names_of(W, d["inlined"]), names_of(W, d["contracts"])
    return d


SAFETY = ("memory", "overflow", "division", "calendar", "defined", "reachable", "exception", "termination")


def scan_tasks(W, kinds=None):
    return [("%s::execute of an arbitrary text" % c, t_scan, (c, kinds)) for c in sorted(parserproof.CLASS.values())]


def t_list(W, args, deadline):
    import refproof
    d = refproof.list_task(W, reader(W), args, deadline)
    d["inlined"], d["contracts"] = names_of(W, d["inlined"]), names_of(W, d["contracts"])
    return d


LISTS = {"overlap": 4, "datetime": 3, "range": 3, "timezone": 2}


def t_loop(W, args, deadline):
    import loopproof
    d = getattr(loopproof, args[0])(W, reader(W), args[2:], deadline)
    return filtered(W, d, args[1])


def refiner_tasks(which, kinds=None):
    import itertools
    import refproof
    import loopproof
    name = "%s::refine of %%d arbitrary results%%s" % refproof.CLASS[which]
    out = [("%s::refine of any number of arbitrary results" % refproof.CLASS[which], t_loop, ("loop_task", kinds, which))]
    if which in loopproof.MERGE:
        for ends in itertools.product((False, True), repeat=2):
            out.append(("%s of an arbitrary date %s end and time %s end" % ((loopproof.MERGE[which],) + tuple("with" if x else "without" for x in ends)),
                        t_loop, ("merge_task", kinds, which, ends)))
    if kinds:
        return out
    for n in range(LISTS[which], -1, -1):
        if (which, n) == ("datetime", 3):
            for ends in itertools.product((False, True), repeat=n):
                out.append((name % (n, ", of which %s have an end" % (" ".join(str(k + 1) for k in range(n) if ends[k]) or "none")), t_list, (which, n, ends)))
        else:
            out.append((name % (n, ""), t_list, (which, n, None)))
    return out


def t_util(W, args, deadline):
    import utilproof
    return filtered(W, getattr(utilproof, args[0])(W, *args[2:], deadline), args[1])


def util_tasks(kinds=None):
    return [("utils::argToOrdinalValue of an arbitrary text", t_util, ("ordinal_task", kinds)),
            ("utils::extractDateTimeUnitFragments of an arbitrary text", t_util, ("fragments_task", kinds)),
            ("utils::toLowerCase of an arbitrary text", t_util, ("case_task", kinds, "toLowerCase")),
            ("utils::toUpperCase of an arbitrary text", t_util, ("case_task", kinds, "toUpperCase"))]


def t_tool(W, args, deadline):
    import toolproof
    return filtered(W, getattr(toolproof, args[0])(W, *(args[1:] or (reader(W),)), deadline), None)


def t_raise(W, msg, deadline):
    raise Unsupported(msg)


def tasks(W, prop):
    if prop in plan.PARSER_OF:
        return parser_tasks(W, plan.PARSER_OF[prop])
    if prop in ("C01", "C02"):
        induct.prepare(W, reader(W), "comp")
        return [(n, t_comp, (op, ("certain", "value") if prop == "C01" else ("certain",)))
                for n, op in induct.comp_tasks(W, reader(W), None, prop)]
    if prop == "C03":
        induct.prepare(W, reader(W), "res")
        return [(n, t_res, op) for n, op in induct.res_tasks(W, reader(W))]
    if prop == "C04":
        return [("parse::ParsedResult::toDate of an arbitrary possible result", t_ask, "render")]
    if prop == "C05":
        return [("parse::ParsedResult::hasPossibleDates of an arbitrary result", t_ask, "possible")] + scan_tasks(W, ("result",))
    if prop == "C06":
        return scan_tasks(W)
    if prop == "C26":
        return util_tasks()
    if prop == "C27":
        return [("main of an arbitrary text and reference time", t_tool, ("tool_task", 3)), ("main of an arbitrary text", t_tool, ("tool_task", 2)),
                ("the order of two arbitrary results", t_tool, ("order_task",))]
    if prop in plan.REFINER_OF:
        return refiner_tasks(plan.REFINER_OF[prop])
    if prop in ("C07", "C25"):
        out = []
        for p in ["ago", "later"] + [p for p in spec.PARSERS if p not in FRAGMENTS]:
            out += [t for t in parser_tasks(W, p, t_safe if prop == "C07" else t_frame) if t[1] is not t_pattern]
        out += scan_tasks(W, SAFETY if prop == "C07" else ("frame",))
        out += util_tasks(SAFETY if prop == "C07" else ("frame",))
        if prop == "C25":
            for which in sorted(plan.REFINER_OF.values()):
                out += refiner_tasks(which, ("frame",))
        return out
    return []
