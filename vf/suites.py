"""Concrete comparison of the real code with the executable contracts, one suite per property.

Every suite returns (number of cases, number of distinct non-trivial cases, failures, samples); a failure is
(request line, message, answer)."""
import random
import subprocess

import conform
import oracle
import spec
from conform import Pool, hx
from oracle import CAL, FIELDS, Comps, NoResult, Res, TAGS, make_ref
from spec import Unspecified

VALUES = [0, 1, -1, 2, 7, 12, 13, 23, 24, 28, 29, 30, 31, 32, 59, 60, 61, 2019, 2020, 1399, 1400, 9999, 10000, -330, 2147483647, -2147483648]


# ---------------------------------------------------------------- C01, C02
def comps_program(r):
    ops, model, out = [], [Comps(), Comps()], []
    for _ in range(r.randint(1, 14)):
        x, s, f = r.random(), r.randint(0, 1), r.randint(0, 7)
        v = r.choice(VALUES)
        if x < 0.4:
            ops.append("s%d%d=%d" % (s, f, v))
            model[s].set(FIELDS[f], v)
        elif x < 0.8:
            ops.append("i%d%d=%d" % (s, f, v))
            model[s].imply(FIELDS[f], v)
        elif x < 0.85:
            ops.append("u%d" % s)
        elif x < 0.9:
            ops.append("q%d" % s)
            out.append("no")
        else:
            ops.append(r.choice("ca"))
            model[1] = model[0].copy()
        if r.random() < 0.3:
            ops.append("v")
            out.append("/".join(full(m) for m in model))
    out.append("/".join(full(m) for m in model))
    return "comp " + " ".join(ops), " ".join(out)


def full(c):
    return ",".join(("!" if c.certain(f) else "?") + str(c.get(f)) for f in FIELDS)


def compare(drv, cases):
    """cases: (request, expected answer)"""
    ans = drv.run(q for q, _ in cases)
    return [(q, "expected %s" % w, a) for (q, w), a in zip(cases, ans) if a != w]


def pack(cases, bad, trivial=0):
    return len(cases), len({c[0] for c in cases}) - trivial, bad, [c[0] for c in cases[:3]]


def comps(drv, seed, n):
    r = random.Random(seed)
    cases = [comps_program(r) for _ in range(n)]
    return pack(cases, compare(drv, cases))


# ---------------------------------------------------------------- C03
def random_comps(r, possible=False, sparse=0.3):
    c = Comps()
    if possible:
        y = r.choice([1400, 1999, 2000, 2019, 2020, 2023, 2024, 2100, 9998, r.randint(1400, 9998)])
        m = r.randint(1, 12)
        vals = [y, m, r.choice([1, 2, 15, CAL.eom(y, m) - 1, CAL.eom(y, m)]), r.randint(0, 6), r.choice([0, 1, 6, 11, 12, 13, 23, 24]),
                r.choice([0, 1, 30, 59]), r.choice([0, 1, 30, 59]), r.choice([0, 0, 60, -300, 330, -570, 825, 1439])]
        for f, v in zip(FIELDS, vals):
            (c.set if r.random() < 0.5 else c.imply)(f, v)
            if v == 0 and r.random() < 0.5:
                c.f.pop(f)
        return c
    for f in FIELDS:
        if r.random() > sparse:
            (c.set if r.random() < 0.5 else c.imply)(f, r.choice(VALUES))
    return c


WORDS = ["", "today", "3 pm", "x", "next week", "2019-02-03t10:00"]


def random_result(r, possible=False):
    v = Res(r.choice([0, 0, 1, 5, 17, 1000, 2147483647]), r.choice(WORDS), random_comps(r, possible),
            random_comps(r, possible) if r.random() < 0.4 else None)
    for t in TAGS:
        if r.random() < 0.15:
            v.tags.add(t)
    return v


def full_result(v):
    return "%d;x%s;%s;%s;%s" % (v.index, v.text.encode("latin-1").hex(), "".join("1" if t in v.tags else "0" for t in TAGS),
                                full(v.start), "-" if v.end is None else full(v.end))


def result_program(r, bias=()):
    """a random history of three results; bias: operations that come in it for sure"""
    slot = [Res(), Res(), Res()]
    hidden = [Comps(), Comps(), Comps()]           # the end date while there is none; None when not promised
    ops, out = [], []

    def step(k, s, x):
        if k == "R":
            slot[s] = random_result(r) if x is None else x
            hidden[s] = None if slot[s].end is None else Comps()
            ops.append("R%d%s" % (s, full_op(slot[s])))
        elif k in "=CL":
            ops.append("%s%d%d" % (k, s, x))
            slot[s] = slot[x].copy()
            hidden[s] = None
        elif k == "t":
            ops.append("t%d%d" % (s, x))
            slot[s].tags.add(TAGS[x])
        elif k == "g":
            ops.append("g%d%d" % (s, x))
            out.append("1" if TAGS[x] in slot[s].tags else "0")
        elif k == "x":
            ops.append("x%d%d" % (s, x))
            slot[s].index = x
        elif k == "X":
            ops.append("X%d%s" % (s, hx(x)))
            slot[s].text = x
        elif k == "s":
            ops.append("s%d%d=%d" % (s, x[0], x[1]))
            slot[s].start.set(FIELDS[x[0]], x[1])
        elif k == "z":
            e = slot[s].end if slot[s].end is not None else hidden[s]
            if e is None:
                return
            ops.append("z%d%d=%d" % (s, x[0], x[1]))
            e.set(FIELDS[x[0]], x[1])
        elif k == "e":
            if slot[s].end is None:
                if hidden[s] is None:
                    return
                slot[s].end, hidden[s] = hidden[s], None
            ops.append("e%d" % s)
        elif k == "m":
            ops.append("m%d" % s)
            out.append(("E" if slot[s].index == 0 and not slot[s].text else "N") + str(len(slot[s].text)))
        elif k == "v":
            ops.append("v%d" % s)
            out.append(full_result(slot[s]))

    n = r.randint(2, 14)
    at = r.randint(0, n)
    for i in range(n):
        if i == at:
            for b in bias:
                step(*b)
        x, s, o = r.random(), r.randint(0, 2), r.randint(0, 2)
        if x < 0.3:
            step("R", s, None)
        elif x < 0.5:
            step(r.choice("=CL"), s, o)
        elif x < 0.6:
            step("t", s, r.randint(0, 14))
        elif x < 0.7:
            step("g", s, r.randint(0, 14))
        elif x < 0.75:
            step("x", s, r.choice([0, 1, 7, 123456]))
        elif x < 0.8:
            step("X", s, r.choice(WORDS))
        elif x < 0.9:
            step("s", s, (r.randint(0, 7), r.choice(VALUES)))
        elif x < 0.94:
            step("e", s, None)
        else:
            step("z", s, (r.randint(0, 7), r.choice(VALUES)))
        if r.random() < 0.2:
            step("m", s, None)
        if r.random() < 0.2:
            step("v", s, None)
    if at == n:
        for b in bias:
            step(*b)
    out += [full_result(v) for v in slot]
    return "result 2019-01-01_00:00:00 " + " ".join(ops), " ".join(out)


def full_op(v):
    return oracle.show_result(v)


def results(drv, seed, n):
    r = random.Random(seed)
    cases = [result_program(r) for _ in range(n)]
    return pack(cases, compare(drv, cases))


# ---------------------------------------------------------------- C04, C05
REF = "2019-03-13_10:20:30"


def render(drv, seed, n):
    r = random.Random(seed)
    cases = []
    while len(cases) < n:
        v = random_result(r, True)
        if r.random() < 0.4:
            v.tags.add("ExtractTimeZoneAbbreviation")
        try:
            w = spec.render_text(spec.render(CAL, v))
        except NoResult:
            continue
        cases.append(("render %s %s" % (REF, oracle.show_result(v)), w))
    return pack(cases, compare(drv, cases))


EDGE = {"year": [0, 1399, 1400, 1401, 1900, 2000, 2019, 2020, 2100, 9998, 9999, 10000, -5], "month": [0, 1, 2, 2, 4, 6, 11, 12, 13, -1],
        "mday": [0, 1, 15, 28, 29, 30, 31, 32, -3], "wday": [0, 3, 9], "hour": [-1, 0, 1, 12, 23, 24, 25], "min": [-1, 0, 1, 59, 60],
        "sec": [-1, 0, 1, 59, 60], "tzoffset": [0, -720, 100000]}


def edge_comps(r, bad):
    c = random_comps(r, True)
    for f in r.sample(FIELDS, bad):
        c.f.pop(f, None)
        (c.set if r.random() < 0.5 else c.imply)(f, r.choice(EDGE[f]))
    return c


def possible(drv, seed, n):
    r = random.Random(seed)
    cases = []
    for _ in range(n):
        v = Res(0, "x", edge_comps(r, r.choice([0, 1, 1, 2, 3])), edge_comps(r, r.choice([0, 1, 1, 2])) if r.random() < 0.4 else None)
        cases.append(("possible %s %s" % (REF, oracle.show_result(v)),
                      ("yes" if spec.possible(CAL, v) else "no") + ("+" if spec.possible_comps(CAL, v.start) else "")))
    return pack(cases, compare(drv, cases))


# ---------------------------------------------------------------- parsers
def parses(drv, parsers, seed, n, context=True):
    items, bad = [], []
    for k, p in enumerate(parsers):
        pool = Pool(seed * 31 + k)
        it = conform.gen_parser(p, pool, n)
        items += it
    bad = conform.check_parse(drv, items)
    return (len(items), len({i for i in items}), [(" ".join(("parse", i[1], i[2], hx(i[3]))), "%r at %s: %s" % (i[3], i[2], m), a)
                                                 for i, m, a in bad], [list(i) for i in items[:3]])


GLUE = [" ", " ", ", ", " and ", ". ", "; ", " x ", "", " - ", " 31 ", "  "]
JUNK = ["february 30", "25:00", "13pm", "3:60", "in 99999999999 days", "31.12", "99 bc", "2019-13-40", "this minute", "next abc weeks",
        "12 12 12", "sat", "may", "mar", "half", "0", "feb 31 2019", "24:30", "999999999999999999999 years ago", "(", "to 5"]


def scans(drv, parsers, seed, n):
    """Texts with several phrases."""
    items = []
    for k, p in enumerate(parsers):
        pool = Pool(seed * 37 + k)
        r = pool.rnd
        own = conform.phrases(p, pool, 400)
        for _ in range(n):
            parts = []
            for _ in range(r.randint(2, 5)):
                parts.append(r.choice(own) if r.random() < 0.75 else r.choice(JUNK))
                parts.append(r.choice(GLUE))
            items.append((p, pool.ref(), pool.case("".join(parts))))
        items.append((p, pool.ref(), "x, " * 22000 + r.choice(own) + " " + r.choice(own)))
    bad = conform.check_parse(drv, items)
    items = [i for i in items if len(i[2]) < 1000] + [(p, t, x[:20] + "...") for p, t, x in items if len(x) >= 1000]
    return (len(items), len(set(items)), [(" ".join(("parse", i[1], i[2], hx(i[3]))), "%r at %s: %s" % (i[3], i[2], m), a)
                                          for i, m, a in bad], [list(i) for i in items[:3]])


HUGE = ["2147483647", "2147483648", "4294967296", "99999999999", "9" * 30, "32768", "65536", "285001", "2000001", "48000001", "00000000000000000000001",
        "106751991167", "9223372036854775808"]


def hostile(pool, p, n):
    r = pool.rnd
    out = []
    ph = conform.phrases(p, pool, 200)
    for _ in range(n):
        x = r.random()
        t = r.choice(ph)
        if x < 0.4:                                   # huge numbers in place of the written ones
            import re
            t = re.sub(r"\d+", lambda m: r.choice(HUGE) if r.random() < 0.7 else m.group(0), t)
            t = re.sub(r"\b(one|two|three|four|five|six|seven|eight|nine|ten)\b", lambda m: r.choice(HUGE), t) if r.random() < 0.5 else t
        elif x < 0.6:                                 # random bytes inside
            i = r.randint(0, len(t))
            t = t[:i] + "".join(chr(r.choice([0x80, 0xe2, 0xff, 0x09, 0x01, 0x7f, 0x5c, 0x28, 0x5b, r.randint(1, 255)])) for _ in range(r.randint(1, 4))) + t[i:]
        elif x < 0.75:
            t = t[r.randint(0, len(t)):] + r.choice(ph)[:r.randint(0, 9)]
        elif x < 0.85:
            t = t * r.randint(2, 20)
        elif x < 0.9:
            t = ""
        elif x < 0.95:
            t = "".join(chr(r.randint(1, 255)) for _ in range(r.randint(0, 40)))
        t = t.replace("\n", " ")
        out.append(t)
    return out


def robust(drv, parsers, seed, n):
    items = []
    for k, p in enumerate(parsers):
        pool = Pool(seed * 41 + k)
        for t in hostile(pool, p, n):
            items.append((p, pool.ref(), t))
    bad = []
    ans = drv.run("parse %s %s %s" % (p, t, hx(x)) for p, t, x in items)
    for (p, t, x), a in zip(items, ans):
        if x != x.lower() and any(ord(c) > 127 for c in x):
            msg = "crash" if a.startswith(("CRASH", "EXCEPTION")) else None
        else:
            msg = conform.judge_parse(p, t, x, a)
        if msg:
            bad.append(("parse %s %s %s" % (p, t, hx(x)), "%r at %s: %s" % (x, t, msg), a))
    return len(items), len(set(items)), bad, [list(i) for i in items[:3]]


# ---------------------------------------------------------------- refiners
FILL = [" ", " at ", " to ", " and ", " - ", " through ", ", ", " x ", "est", " (pst)", " until ", "-", "  "]


def result_list(r, overlapping=False):
    """A text and results lying in it, ordered by position."""
    text, out = "", []
    for _ in range(r.choice([0, 1, 2, 2, 2, 3, 3, 4, 5])):
        text += r.choice(FILL)
        w = "".join(r.choice("abcdt 12") for _ in range(r.randint(1, 6)))
        v = random_result(r, True)
        v.index, v.text = len(text), w
        if r.random() < 0.5:
            v.end = None
        x = r.random()
        if x < 0.4:                                  # a date
            for f in ("hour", "min", "sec"):
                if f in v.start.f:
                    v.start.f[f] = (False, v.start.f[f][1])
        elif x < 0.8:                                # a time
            for f in ("month", "mday"):
                if f in v.start.f:
                    v.start.f[f] = (False, v.start.f[f][1])
        if r.random() < 0.5:
            v.tags.add("ENTimeExpressionParser")
        text += w
        out.append(v)
    text += r.choice(["", "", " est", " (PST)", "gmt", " EST now", " zzz", " x", " %s" % r.choice(sorted(spec.TIMEZONE)), "(%s)" % r.choice(sorted(spec.TIMEZONE)).lower(), " anasty", " yekstx"])
    if overlapping:
        for v in out:
            v.index = max(0, v.index - r.choice([0, 0, 1, 2, 5]))
            v.text = v.text * r.choice([1, 1, 2, 3])
        out.sort(key=lambda v: v.index)
        text = r.choice([text, text, text[:4], ""])   # overlaps are decided without the text
    return text, out


def refined(name, text, rs):
    return {"overlap": lambda: spec.overlap(rs), "timezone": lambda: spec.timezone(text, rs),
            "datetime": lambda: spec.datetime(CAL, text, rs), "range": lambda: spec.range_(CAL, text, rs)}[name]()


def refiner(drv, name, seed, n):
    r = random.Random(seed)
    cases, bad = [], []
    for _ in range(n):
        text, rs = result_list(r, name == "overlap")
        if name == "timezone" and r.random() < 0.1:  # results that lie outside the text
            text = text[:r.randint(0, len(text))]
        try:
            want = refined(name, text, rs)
        except NoResult:
            continue
        cases.append(("refine %s %s %s %s" % (name, REF, hx(text), oracle.show_list(rs)), want))
    ans = drv.run(q for q, _ in cases)
    for (q, w), a in zip(cases, ans):
        if a.startswith(("CRASH", "EXCEPTION")):
            bad.append((q, "does not return normally", a))
            continue
        d = oracle.diff_list(w, oracle.read_list(a))
        if d:
            bad.append((q, d, a))
    return pack(cases, bad)


# ---------------------------------------------------------------- C25
def history(drv, parsers, seed, n):
    """The same requests in two orders within one process, with the vocabularies read before and after."""
    reqs = []
    for k, p in enumerate(parsers):
        pool = Pool(seed * 43 + k)
        ph = conform.phrases(p, pool, n) + hostile(pool, p, n // 4)
        reqs += ["parse %s %s %s" % (p, pool.ref(), hx(pool.case(x).replace("\n", " "))) for x in pool.rnd.sample(ph, min(n, len(ph)))]
    r = random.Random(seed)
    for _ in range(n):
        for name in ("overlap", "timezone", "datetime", "range"):
            text, rs = result_list(r, name == "overlap")
            reqs.append("refine %s %s %s %s" % (name, REF, hx(text), oracle.show_list(rs)))
        reqs.append("ordinal " + hx(r.choice(["first", "nosuch", "thirty second", "Twenty-Third", "zeroth", ""])))
    a_order, b_order = list(reqs), list(reqs)
    r.shuffle(a_order)
    r.shuffle(b_order)
    out = []
    for o in (a_order, b_order):
        lines = ["tables"] + o + ["tables"]
        got = drv._batch(lines)
        drv.count += len(lines)
        if got[0] != got[-1]:
            return len(reqs), len(set(reqs)), [(minimise_history(drv, o), "the vocabularies changed", got[-1][:200])], reqs[:3]
        out.append(dict(zip(lines, got)))
    bad = [(q, "the answer depends on the calls before it: %s / %s" % (out[0][q], out[1][q]), out[1][q]) for q in reqs if out[0][q] != out[1][q]]
    for q in reqs:
        if q.startswith("parse") and not out[0][q].startswith(("CRASH", "EXCEPTION")):
            if not out[0][q].split(" ")[2].startswith(q.split(" ")[2].replace("_", "T")):
                bad.append((q, "the reference time was modified", out[0][q]))
    return len(reqs), len(set(reqs)), bad, reqs[:3]


def minimise_history(drv, o):
    lo, n = list(o), 2
    while len(lo) > 1:
        k = max(1, len(lo) // 2)
        for part in (lo[:k], lo[k:]):
            g = drv._batch(["tables"] + part + ["tables"])
            if g[0] != g[-1]:
                lo = part
                break
        else:
            break
    return " ; ".join(["tables"] + lo[:3] + ["tables"])


# ---------------------------------------------------------------- C26
def numbers(drv, seed, n):
    r = random.Random(seed)
    cases = []
    words = list(spec.ORDINAL)
    for _ in range(n // 2):
        w = r.choice(words + ["zeroth", "thirty second", "twenty tenth", "one", "", "twenty", "firstsecond", "first second", "thirty"])
        w = w.replace(" ", r.choice([" ", "-", "  ", " - ", "- "]))
        w = r.choice(["", "", " ", "  ", "-"]) + w + r.choice(["", "", " ", "   ", "-"])
        w = r.choice([w, w.upper(), w.title()])
        cases.append(("ordinal " + hx(w), str(oracle.ordinal(w))))
    pool = Pool(seed)
    for _ in range(n // 2):
        parts = []
        for _ in range(r.randint(0, 4)):
            parts.append(r.choice(conform.COUNTS) + r.choice([" ", "", "  "]) + r.choice(conform.UNITS2))
            parts.append(r.choice([" ", "", ", ", " and ", " x "]))
        t = pool.case("".join(parts))
        try:
            f = oracle.fragments(t)
        except NoResult:
            continue
        cases.append(("fragments " + hx(t), "{" + "".join("%s=%s " % (k, f[k]) for k in sorted(f)) + "}"))
    return pack(cases, compare(drv, cases))


# ---------------------------------------------------------------- C27
TOOL = spec.TOOL


INVALID = "[???] -- Invalid date"
EDGES = [("12/31/9999 at midnight", "9999-12-31_10:00:00"), ("11pm jst", "9999-12-31_10:00:00"), ("at 3pm jst", "9999-12-31_10:00:00"),
         ("at 2pm jst", "9999-12-31_10:00:00"), ("1am pst", "1400-01-01_10:00:00"), ("9am pst", "1400-01-01_10:00:00"),
         ("today from 10pm to 1am", "9999-12-31_10:00:00"), ("1am - 2am jst", "1400-01-01_10:00:00"),
         ("2pm - 4pm jst", "9999-12-31_10:00:00")]


def tool_answer(text, ref):
    """Every answer allowed: results at the same position may come in any order."""
    import itertools
    rs = []
    for p in TOOL:
        rs += oracle.scan(p, text, ref)
    if any(r.open for r in rs):
        return None
    for r in rs:
        if r.start.f.get("sec", (False, 0))[0] is spec.ANY:
            return None
    low = oracle.lower(text)
    groups = [list(g) for _, g in itertools.groupby(sorted(rs, key=lambda r: r.index), key=lambda r: r.index)]
    if sum(len(g) > 1 for g in groups) > 3 or any(len(g) > 3 for g in groups):
        return None
    answers = set()
    for combo in itertools.product(*[list(itertools.permutations(g)) for g in groups]):
        l = [r for g in combo for r in g]
        try:
            l = spec.overlap(l)
            l = spec.timezone(low, l)
            for r in l:
                if r.opentext:
                    r.text = (spec.tz_name(low[r.index + len(r.text):]) or "").lower()
            l = spec.datetime(CAL, low, l)
            l = spec.range_(CAL, low, l)
        except NoResult:
            return None
        answers.add(printed(l))
    return answers


def printed(rs):
    """what the tool prints of the results that remain"""
    try:
        return "Date:\t" + spec.render_text(spec.render(CAL, rs[0])) if rs else INVALID
    except NoResult:                                 # moved past the ends of the calendar
        return INVALID


def tool(exe, seed, n):
    from concurrent.futures import ThreadPoolExecutor
    pool = Pool(seed)
    r = pool.rnd
    ph = {p: conform.phrases(p, pool, 150) for p in TOOL}
    cases = [(t, ref, w) for t, ref in EDGES for w in [tool_answer(t, make_ref(ref))] if w is not None]
    while len(cases) < n:
        k = r.choice([1, 1, 1, 2, 2, 3])
        t = "".join(r.choice(ph[r.choice(TOOL)]) + r.choice([" ", " at ", " to ", " - ", ", ", " and ", " ", " est", ""]) for _ in range(k))
        if r.random() < 0.05:                        # many results, of a few kinds
            ps = [r.choice(TOOL) for _ in range(2)]
            t = " and then ".join(r.choice(ph[r.choice(ps)]) for _ in range(r.randint(17, 24)))
        if r.random() < 0.1:
            t = r.choice(["", "nothing here", "hello", "12345", "last", "0"]) + (t if r.random() < 0.5 else "")
        if r.random() < 0.1:
            t += r.choice(["EST", " gmt", " (pst)", " jst"])
        if r.random() < 0.04:                        # far into a long text
            t = r.choice(["so it goes. ", "- ", "x, y and z. "]) * r.choice([30, 100, 400, 2000]) + t
        if "\0" in t or any(ord(c) > 127 for c in t):
            continue
        ref = pool.ref()
        w = tool_answer(t, make_ref(ref))
        if w is None:
            continue
        cases.append((pool.case(t), ref, w))

    hung = []

    def one(c):
        t, ref, w = c
        if len(hung) > 8:
            return None
        p = subprocess.run(["/bin/sh", "-c", 'ulimit -t 10 -v 2000000; exec "$0" "$@"', exe, t, ref.replace("_", " ")],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        o = p.stdout.decode("latin-1").rstrip("\n")
        if p.returncode != 0:
            hung.append(p.returncode)
            return ("tool %s %s" % (hx(t), ref), "%r at %s: exit status %d" % (t, ref, p.returncode), o)
        if o not in w:
            return ("tool %s %s" % (hx(t), ref), "%r at %s: expected %s" % (t, ref, " or ".join(sorted(w))), o)
        return None

    with ThreadPoolExecutor(8) as ex:
        bad = [b for b in ex.map(one, cases) if b]
    return len(cases), len({c[:2] for c in cases}), bad, [list(c[:2]) for c in cases[:3]]


# ---------------------------------------------------------------- inputs of refuted obligations
def request(x):
    if x[0] == "parse":
        return "parse %s %s %s" % (x[1], x[2], hx(x[3]))
    return x[1]


def judge(x, a):
    """what is wrong with the answer, or None"""
    if x[0] == "parse":
        return conform.judge_parse(x[1], x[2], x[3], a)
    if x[0] == "list":
        if a.startswith(("CRASH", "EXCEPTION")):
            return "does not return normally"
        _, name, _, h, rs = x[1].split(" ")
        try:
            return oracle.diff_list(refined(name, bytes.fromhex(h[1:]).decode("latin-1"), oracle.read_list(rs)), oracle.read_list(a))
        except NoResult:
            return None
    if x[0] == "expect":
        return None if a == x[2] else "expected %s" % x[2]
    raise ValueError(x[0])
