"""Concrete runs of the real code against the executable contracts.

Used (1) to turn a failed obligation into a failing input, (2) as a monitor of
the assumptions the proofs make about the library (std::regex, std::string,
maps, Boost), and (3) as the bounded stand-in, labelled as such, for functions
that could not be brought within the verifier's reach."""
import itertools
import random
import signal
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import oracle
import rx
import spec
from oracle import CAL, Comps, FIELDS, NoResult, Res, TAGS, make_ref


class Driver:
    def __init__(self, exe, jobs=8, env=None):
        self.exe, self.jobs, self.env = exe, jobs, env
        self.count = self.hangs = 0

    def _batch(self, lines):
        """One answer per line; a line that ends the process answers 'CRASH ...'."""
        out, i = [], 0
        while i < len(lines):
            if self.hangs >= 3:
                out += ["CRASH not run: other requests never returned"] * (len(lines) - i)
                break
            p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=self.env)
            try:
                o, e = p.communicate(("\n".join(lines[i:]) + "\n").encode("latin-1"), timeout=600)
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
                e = b"timeout"
            got = o.decode("latin-1").split("\n")
            got = got[:-1] if not got[-1] else got[:-1]
            out += got[:len(lines) - i]
            i += len(got)
            if i < len(lines):
                if p.returncode == -signal.SIGPROF:
                    self.hangs += 1
                    e = b"does not return"
                out.append("CRASH " + " ".join(e.decode("latin-1").split())[-600:])
                i += 1
        return out

    def run(self, lines):
        lines = list(lines)
        self.count += len(lines)
        if len(lines) < 32:
            return self._batch(lines)
        k = max(1, (len(lines) + self.jobs * 4 - 1) // (self.jobs * 4))
        with ThreadPoolExecutor(self.jobs) as ex:
            parts = list(ex.map(self._batch, [lines[i:i + k] for i in range(0, len(lines), k)]))
        return [x for p in parts for x in p]


def hx(s):
    return "x" + s.encode("latin-1").hex()


# ---------------------------------------------------------------- pools
DATES = ("2019-01-01 2019-01-31 2019-02-28 2019-03-01 2019-03-31 2019-04-30 2019-05-15 2019-06-30 2019-07-04 2019-08-31 "
         "2019-09-11 2019-10-31 2019-11-30 2019-12-31 2020-01-01 2020-01-30 2020-02-28 2020-02-29 2020-03-01 2020-12-31 "
         "2021-01-01 2021-06-16 2022-07-02 2022-07-03 2023-09-09 2024-02-29 2024-08-10 1900-02-28 1900-03-01 2000-02-29 "
         "2100-02-28 1999-12-31 2000-01-01 1970-01-01 1969-12-31 2038-01-19 1752-09-14 1600-02-29 1401-01-01 9998-12-31 "
         "2019-03-10 2019-03-11 2019-03-12 2019-03-13 2019-03-14 2019-03-15 2019-03-16").split()
LIMITS = "1400-01-01 1400-01-02 1400-02-01 1401-12-31 9999-12-31 9999-12-30 9999-11-30 9999-01-01".split()
TIMES = ("00:00:00 00:00:01 00:30:15 01:02:03 06:00:00 06:59:59 07:00:00 09:05:06 11:59:59 12:00:00 13:45:10 18:00:01 "
         "22:10:20 23:00:00 23:30:00 23:59:30 23:59:59 14:15:16.789012").split()


def UP(s):
    return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)


class Pool:
    def __init__(self, seed):
        self.rnd = random.Random(seed * 7919 + 17)

    def ref(self):
        r = self.rnd
        x = r.random()
        if x < 0.6:
            d = r.choice(DATES)
        elif x < 0.7:
            d = r.choice(LIMITS)
        else:
            y, m, dd = CAL.ymd(r.randint(CAL.dn(1402, 1, 1), CAL.dn(9997, 1, 1)) if x < 0.8
                               else r.randint(CAL.dn(1950, 1, 1), CAL.dn(2060, 1, 1)))
            d = "%04d-%02d-%02d" % (y, m, dd)
        t = r.choice(TIMES) if r.random() < 0.6 else "%02d:%02d:%02d" % (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
        return d + "_" + t

    def case(self, s):
        x = self.rnd.random()
        if x < 0.6:
            return s
        if x < 0.75:
            return UP(s)
        if x < 0.9:
            return "".join(UP(c) if not s[i - 1:i].isalpha() else c for i, c in enumerate(s))
        return "".join(UP(c) if self.rnd.random() < 0.5 else c for c in s)


DIGITS = ("0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 20 21 23 24 25 27 28 29 30 31 32 36 40 45 48 52 53 59 60 61 63 72 90 99 "
          "00 01 02 05 07 08 09 059 060 100 101 102 110 112 120 130 159 160 199 200 230 234 245 300 365 366 400 500 543 999 1000 1159 1200 "
          "1230 1259 1260 1300 1399 1400 1401 1582 1900 1942 1943 1999 2000 2001 2019 2020 2024 2359 2360 2400 2401 2459 2460 2500 "
          "2560 2562 2563 2400 9999 10542 10000 0000 0001 0019 0099 0100 0800").split()
BIG = "2730 2731 32767 32768 65536 285000 285001 2000000 2000001 48000000 48000001 2147483647 2147483648 4294967297 99999999999999999999".split()


def cover(n, rnd, digits=DIGITS, depth=0):
    """Strings of the expression covering each of its alternatives."""
    t = n[0]
    if t == "set":
        return [rx.sample(n, rnd)]
    if t == "cat":
        parts = [cover(x, rnd, digits, depth + 1) for x in n[1]]
        k = max(len(p) for p in parts) if parts else 1
        out = []
        for p in parts:
            rnd.shuffle(p)
        for i in range(k):
            out.append("".join(p[i] if i < len(p) else rnd.choice(p) for p in parts))
        return out or [""]
    if t == "alt":
        return [y for x in n[1] for y in cover(x, rnd, digits, depth + 1)]
    if t == "grp":
        return cover(n[2], rnd, digits, depth)
    if t == "rep":
        _, b, lo, hi, _ = n
        if b == ("set", rx.DIGIT):
            ok = [d for d in digits if lo <= len(d) <= (hi if hi is not None else 99)]
            return rnd.sample(ok, len(ok)) if ok else [rx.sample(n, rnd)]
        if b == ("set", rx.SPACE):
            return (["" ] if lo == 0 else []) + [" ", "  ", "\t", " \n "][: 4 if hi is None else 1]
        one = cover(b, rnd, digits, depth + 1)
        out = list(one)
        if lo == 0:
            out += [""] * max(1, len(one) // 3)
        if hi is None or hi > 1:
            out += [a + rnd.choice(one) for a in rnd.sample(one, min(len(one), 40))]
        return out
    return [""]


_AST = {}


def ast(parser):
    if parser not in _AST:
        _AST[parser] = rx.parse(spec.PATTERN[parser], True)[0]
    return _AST[parser]


NUMS = ["1", "2", "3", "7", "10", "12", "13", "28", "29", "30", "31", "36", "48", "52", "61", "75", "100", "365", "366", "1000", "0", "007"]
COUNTS = list(spec.INTEGER) + NUMS + ["a", "an", "a few", "an few", "half", "half a", "half an"]
UNITS1 = "sec second secs seconds min mins minute minutes hr hrs hour hours day days wk wks week weeks month months yr yrs year years".split()
UNITS2 = "sec second seconds min mins minute minutes hour hours day days week weeks month months year years".split()


def phrases(parser, pool, n):
    """Phrases of the documented form of one parser."""
    r = pool.rnd
    out = []
    ws = lambda: r.choice([" ", " ", " ", "  ", "\t"])
    ws0 = lambda: r.choice(["", " ", " ", "  "])
    if parser == "deadline":
        out = [r.choice(["in", "within"]) + ws() + c + ws() + u for c in COUNTS + BIG for u in UNITS1]
    elif parser == "relative":
        out = [m + ws() + c + (ws() if c else "") + u for m in ("this", "next", "last", "past")
               for c in [""] + list(spec.INTEGER) + NUMS + ["few", "half", "half a", "half an"] + BIG
               for u in "second seconds min mins minute minutes hour hours day days week weeks month months year years".split()]
    elif parser in ("ago", "later"):
        suf = ("ago", "before", "earlier") if parser == "ago" else (
            "later", "after", "from now", "henceforth", "forward", "out")
        one = lambda c, u: c + ws() + u
        out = [one(c, u) + ws0() + r.choice(suf) for c in COUNTS + BIG for u in UNITS2]
        out += [" ".join(one(r.choice(COUNTS), r.choice(UNITS2)) for _ in range(r.randint(2, 4))) + ws0() + r.choice(suf)
                for _ in range(len(out) // 2)]
    elif parser == "week":
        out = [m + ws() + c + (ws0() if c else "") + w for m in ("last", "next")
               for c in [""] + list(spec.INTEGER) + NUMS + BIG + ["several", "couple", "abc", "thirteen", "few"] for w in ("week", "weeks")]
        out += ["this week", "thisweek", "this  week"]
    elif parser == "weekday":
        days = list(spec.WEEKDAY)
        mods = ["", "this", "last", "next"]
        out = [(e + " " if e else "") + (a + ws() if a else "") + d + (ws() + b if b else "")
               for e in ("", "early", "earlier", "late") for a in mods for d in days for b in mods + ["week", "next week"]]
    elif parser == "casualtime":
        out = [t + w for w in "morning noon afternoon evening night".split() for t in ("", "this ", "this", "this  ")]
    elif parser == "casualdate":
        out = "now today tonight tomorrow tmr yesterday".split() + ["last night", "last  night", "lastnight", "tomorrow ", "yesterday\t"]
    elif parser == "time":
        hs = [str(i) for i in range(0, 26)] + ["00", "05", "007", "noon", "midnight", "100", "101", "130", "0930", "1159", "1200",
                                              "1259", "1260", "1300", "2359", "2400", "2459", "2500", "9999"]
        ms = ["", "", ":00", ":05", ":30", ".45", ":59", ":60", ":7", ":30:15", ":30:60", ":15:59.123", "\xef\xbc\x9a20"]
        ap = ["", "", "", "am", " pm", "p.m.", " a.m", "a", "p", " o'clock"]
        sep = [" - ", "-", " to ", "~", " \xe2\x80\x93 ", "?", "\xe3\x80\x9c"]
        t1 = lambda: r.choice(["", "", "at ", "from ", "t"]) + r.choice(hs) + r.choice(ms) + r.choice(ap)
        t2 = lambda: r.choice([h for h in hs if h.isdigit()]) + r.choice(ms) + r.choice(ap)
        out = [t1() for _ in range(n // 2)] + [t1() + r.choice(sep) + t2() for _ in range(n // 2)]
        out += [h + m + a for h in hs for m in ("", ":30", ":00") for a in ("", "am", "pm")]
        out += ["%d%s-%d%s" % (a, x, b, y) for a in (0, 1, 6, 11, 12, 13) for b in (0, 1, 5, 11, 12, 13, 24)
                for x in ("", "am", "pm") for y in ("", "am", "pm")]
    elif parser == "monthday":
        months = [m for m in spec.MONTH]
        days = [str(i) for i in range(0, 33)] + ["%d%s" % (i, x) for i, x in ((1, "st"), (2, "nd"), (3, "rd"), (25, "th"))]
        days += [w for w in spec.ORDINAL] + [w.replace(" ", "-") for w in spec.ORDINAL if " " in w]
        years = ["", "", "", ", 2019", " 2020", " 2562 BE", " 1999 AD", "-2000", "/2021", ", 99 AD", " 0050", " 1400", " 44 BC", " 19 ad", " 2563be"]
        wd = [""] * 6 + ["on " + w + " " for w in spec.WEEKDAY] + [w + ", " for w in spec.WEEKDAY]
        out = [r.choice(wd) + m + r.choice([" ", "-", "/", ", ", ""]) + d + r.choice(years) for m in months for d in r.sample(days, 14)]
        out += [r.choice(wd) + r.choice(months) + " " + r.choice(days) + r.choice([" - ", " to ", "-"]) + r.choice(days) + r.choice(years)
                for _ in range(len(out) // 2)]
        out += [m + " " + d for m in ("feb", "december", "jan", "june", "july", "march") for d in days]
    elif parser == "month":
        months = [m for m in spec.MONTH]
        years = ["", "", "", " 2019", ", 2020", "-2021", " 2562 BE", " 1999 AD", " 0050", " 0010 BC", " 2563be", " 1400", " 1399"]
        out = [p + m + y + s for m in months for p in ("", "in ", ", ") for y in years for s in ("", ".", " ", " x")]
    elif parser == "iso":
        tz = ["", "Z", "+00:00", "+05:30", "-03:30", "-0800", "+14", "-05", "+0545", "-00:30"]
        for _ in range(n):
            d = "%04d-%s-%s" % (r.choice([2019, 2020, 2000, 1900, 1400, 9999, 1399, 0, 2024, 2023, r.randint(0, 9999)]),
                                r.choice(["1", "01", "02", "2", "04", "12", "12", "11", "00", "13", "09"]),
                                r.choice(["1", "01", "28", "29", "30", "31", "32", "00", "15", "9"]))
            if r.random() < 0.8:
                d += "T%s:%s" % (r.choice(["0", "00", "9", "12", "23", "24", "25", "09"]), r.choice(["0", "00", "30", "59", "60", "7"]))
                if r.random() < 0.7:
                    d += ":" + r.choice(["0", "00", "30", "59", "60", "7"])
                    if r.random() < 0.4:
                        d += "." + r.choice(["1", "12", "123", "1234"])
                d += r.choice(tz)
            out.append(d)
    elif parser == "holiday":
        names = ["independence", "president's", "new year's", "new year's eve", "newyear's", "columbus", "mlk", "martin luther king junior",
                 "martin luther king jr", "martin luther king jnr", "thanksgiving", "memorial", "labor", "veterans", "veteran's",
                 "christmas", "christmas eve", "christmaseve", "black friday"]
        out = [h + s for h in names for s in ("", " day", "day", "  day")]
    base = cover(ast(parser), r)
    out += base
    extra = [rx.sample(ast(parser), r, DIGITS) for _ in range(max(50, n // 5))]
    r.shuffle(out)
    out = out[:n] if len(out) > n else out + [r.choice(out) for _ in range(n - len(out))]
    return out + extra


def check_parse(drv, items, calendar_limits=True):
    """items: (parser, ref, text). Yields (item, message, answer) for disagreements."""
    ans = drv.run("parse %s %s %s" % (p, t, hx(x)) for p, t, x in items)
    bad = []
    for (p, t, x), a in zip(items, ans):
        msg = judge_parse(p, t, x, a)
        if msg:
            bad.append((("parse", p, t, x), msg, a))
    return bad


def judge_parse(p, t, x, a):
    if a.startswith("CRASH") or a.startswith("EXCEPTION"):
        return "the scan does not return normally: " + a[:300]
    f = a.split(" ")
    got = oracle.read_list(f[0])
    want = oracle.scan(p, x, make_ref(t))
    d = oracle.diff_list(want, got)
    if d:
        return d
    if bytes.fromhex(f[1][1:]).decode("latin-1") != oracle.lower(x):
        return "the text was changed to something else than its lower case"
    if not f[2].startswith(t.replace("_", "T")):
        return "the reference time was modified"
    if got:
        for r, d in zip(got, f[3].split("|")):
            try:
                w = spec.render_text(spec.render(CAL, r))
            except NoResult:
                continue                  # past the end of the calendar: hour 24 of its last day
            if d.replace("_", " ") != w:
                return "rendering: expected %r, got %r" % (w, d.replace("_", " "))
    return None


CONTEXT = [("", "")] * 8 + [("see you ", ""), ("", " ok"), ("x. ", ", then"), ("(", ")"), ("7 ", ""), ("", " 5"), ("a", ""), ("", "x"), ("on ", "!"), (" ", " ")]


def gen_parser(parser, pool, n):
    ph = phrases(parser, pool, n)
    items = []
    for x in ph:
        a, b = pool.rnd.choice(CONTEXT)
        items.append((parser, pool.ref(), pool.case(a + x + b)))
    return items


def run_parser(drv, parser, seed, n):
    pool = Pool(seed)
    items = gen_parser(parser, pool, n)
    return items, check_parse(drv, items)
