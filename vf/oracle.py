"""The contracts on plain values: what a run of the real code has to answer."""
import re
import spec
from spec import *
from spec import Unspecified

_C = {}


def rxc(name):
    if name not in _C:
        import rx
        _C[name] = re.compile(rx.to_python(spec.PATTERN[name]), re.ASCII | re.IGNORECASE)
    return _C[name]


ORD_STRIP = " "


def ordinal(s):
    """Value of a spelled ordinal, 0 for anything else."""
    t = s.replace("-", " ").strip(" ")
    t = re.sub(" +", " ", t)
    return spec.ORDINAL.get(lower(t), 0)


def lower(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


class Cap:
    """Captures of a concrete match."""

    def __init__(self, m):
        self.m = [m.group(0)] + list(m.groups())

    def s(self, g):
        return lower(self.m[g] or "")

    def empty(self, g):
        return self.s(g) == ""

    def eq(self, g, w):
        return self.s(g) == w

    def has(self, g, w):
        return w in self.s(g)

    def begins(self, g, w):
        return self.s(g).startswith(w)

    def num(self, g):
        return int(self.s(g))

    def absnum(self, g):
        return abs(int(self.s(g)))

    def lookup(self, g, table, default):
        return table.get(self.s(g), default)

    def choose(self, g, ws):
        return self.s(g)

    def ordinal(self, g):
        return ordinal(self.s(g))

    def fragments(self, g):
        return fragments(self.s(g))

    def range_is_offset(self, g):
        return re.fullmatch(r"\s*[+-]\s*\d{3,4}", self.s(g), re.ASCII) is not None


def one_fragment(m, frag):
    n, half = spec.count(m, 1)
    u = spec.unit_of(m, 2)
    if half:
        u, n = spec.HALF[u]
    elif n > INT_MAX:
        raise NoResult("count too large")
    frag[u] = n
    return frag


def fragments(text):
    frag, pos = {}, 0
    while True:
        m = rxc("unit").search(text[pos:])
        if not m:
            return frag
        one_fragment(Cap(m), frag)
        pos += m.end()


def interpret(parser, m, ref):
    """View of one interpreted match (index relative to the searched text), or None."""
    try:
        r = spec.EXTRACT[parser](Cap(m), ref, CAL)
    except NoResult:
        return None
    except Unspecified:
        r = Res(m.start())
        r.open = True
        return r
    lead = len(m.group(1)) if parser in ("time", "month") else 0
    r.index, r.text = m.start(), lower(m.group(0)[lead:])
    return r if possible(CAL, r) else None


def scan(parser, text, ref):
    text = lower(text)
    out, pos = [], 0
    while True:
        rest = text[pos:]
        m = rxc(parser).search(rest)
        if not m:
            return out
        r = interpret(parser, m, ref)
        if r is not None:
            r.index += pos
            out.append(r)
        pos += m.end()


# ---------------------------------------------------------------- views from the driver
def read_comps(s):
    return Comps({f: (v[0] == "!", int(v[1:])) for f, v in zip(FIELDS, s.split(","))})


def read_result(s):
    i, t, tags, st, en = s.split(";")
    return Res(int(i), bytes.fromhex(t[1:]).decode("latin-1"), read_comps(st),
               None if en == "-" else read_comps(en), [n for n, b in zip(TAGS, tags) if b == "1"])


def read_list(s):
    return [read_result(x) for x in s[1:-1].split("|")] if len(s) > 2 else []


def show_comps(c):
    return ",".join(("-" if f not in c.f else ("!" if c.f[f][0] else "?") + str(c.f[f][1])) for f in FIELDS)


def show_result(r):
    return "%d;x%s;%s;%s;%s" % (r.index, r.text.encode("latin-1").hex(), "".join("1" if t in r.tags else "0" for t in TAGS),
                                show_comps(r.start), "-" if r.end is None else show_comps(r.end))


def show_list(rs):
    return "[" + "|".join(map(show_result, rs)) + "]"


def diff_comps(what, want, got, skip=()):
    for f in FIELDS:
        w, g = want.f.get(f, (False, 0)), got.f.get(f, (False, 0))
        if w[0] is ANY or f in skip:
            continue
        if bool(w[0]) != bool(g[0]) or w[1] != g[1]:
            return "%s %s: expected %s %s, got %s %s" % (
                what, f, "explicit" if w[0] else "implied", w[1], "explicit" if g[0] else "implied", g[1])
    return None


def diff_result(want, got):
    if want.index != got.index:
        return "position: expected %d, got %d" % (want.index, got.index)
    if not want.opentext and want.text != got.text:
        return "text: expected %r, got %r" % (want.text, got.text)
    if (want.end is None) != (got.end is None):
        return "end: expected %s, got %s" % (want.end and "one" or "none", got.end and "one" or "none")
    d = diff_comps("start", want.start, got.start)
    if not d and want.end is not None:
        d = diff_comps("end", want.end, got.end)
    if d:
        return d
    if (want.tags - want.anytags) != (got.tags - want.anytags):
        return "tags: expected %s, got %s" % (sorted(want.tags), sorted(got.tags))
    return None


def diff_list(want, got):
    """None when equal; unspecified results may be anything or absent."""
    w = [r for r in want if not r.open]
    idx = {r.index for r in want if r.open}
    got = [g for g in got if g.index not in idx]
    if len(w) != len(got):
        return "expected %d results, got %d" % (len(w), len(got))
    for i, (a, b) in enumerate(zip(w, got)):
        d = diff_result(a, b)
        if d:
            return "result %d: %s" % (i, d)
    return None


# ---------------------------------------------------------------- references
def make_ref(s):
    """'YYYY-MM-DD_HH:MM:SS[.ffffff]'"""
    d, t = s.split("_")
    y, mo, dd = map(int, d.split("-"))
    h, mi, sec = t.split(":")
    us = 0
    if "." in sec:
        sec, f = sec.split(".")
        us = int(f.ljust(6, "0"))
    return Ref(CAL.dn(y, mo, dd), int(h), int(mi), int(sec), us)


def show_instant(c):
    y, m, d, h, mi, s = render_instant(CAL, instant(CAL, c))
    return "%04d-%02d-%02dT%02d:%02d:%02d" % (y, m, d, h, mi, s)
