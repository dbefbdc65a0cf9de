"""Contracts of the library the repository is written against: strings, maps, regular
expressions, streams, exceptions and the Gregorian calendar.  Each handler states what
the standard (or Boost) promises about one function; everything that is not here is
executed from its own code."""
import re

import engine
import ir
import lang
import names
import rx
import spec
import strs
import vals
from engine import DEFER, FindV, Fn, NULL, Ptr, SChar, Throw, UNDEF
from strs import Str, lit, mk
from vals import B, ForkOn, Lin, Unsupported

OOR, INVARG, LOGIC = "_ZTISt12out_of_range", "_ZTISt16invalid_argument", "_ZTISt11logic_error"
BAD_YEAR, BAD_DAY = "_ZTIN5boost9gregorian8bad_yearE", "_ZTIN5boost9gregorian16bad_day_of_monthE"
NPOS = -1
INT_MAX = 2147483647


class Rx:
    """A compiled regular expression."""
    __slots__ = ("pat", "icase", "_ast")

    def __init__(self, pat, icase):
        self.pat, self.icase, self._ast = pat, icase, None

    def __eq__(self, other):
        return isinstance(other, Rx) and (self.pat, self.icase) == (other.pat, other.icase)

    def __hash__(self):
        return hash((self.pat, self.icase))

    def ast(self):
        if self._ast is None:
            try:
                self._ast = rx.parse(self.pat, self.icase)
            except rx.RxError as e:
                raise Unsupported("regular expression %r: %s" % (self.pat, e))
        return self._ast[0]

    def groups(self):
        self.ast()
        return self._ast[1]

    def py(self):
        return re.compile(rx.to_python(self.pat), (re.IGNORECASE if self.icase else 0) | re.ASCII)

    def __repr__(self):
        return "/%s/%s" % (self.pat, "i" if self.icase else "")


class MatchVal:
    """Match results. tx: the text searched; g: group -> (first piece, last piece) of tx, or None
    when it took no part; free: group -> Str for groups whose place is not tracked."""
    __slots__ = ("tx", "g", "n", "free", "ok")

    def __init__(self, tx, g, n, free=None, ok=True):
        self.tx, self.g, self.n, self.free, self.ok = tx, g, n, free or {}, ok

    def str(self, k):
        if k in self.free:
            return self.free[k]
        s = self.g.get(k)
        if s is None:
            return strs.EMPTY
        return mk(self.tx[s[0]:s[1]])

    def matched(self, k):
        return k in self.free or self.g.get(k) is not None

    def position(self, ctx, k):
        if k in self.free:
            raise Unsupported("position of a repeated group")
        s = self.g.get(k)
        if s is None:
            return strs.length(ctx, mk(self.tx))
        return strs.length(ctx, mk(self.tx[:s[0]]))


class MapVal:
    """Contents of a map: key -> entry object, in insertion order; maybe: key -> (condition under which it is there, entry)."""
    __slots__ = ("d", "ordered", "maybe")

    def __init__(self, d, ordered, maybe=None):
        self.d, self.ordered, self.maybe = d, ordered, maybe

    def __repr__(self):
        return "{%s}" % ", ".join(str(k) for k in self.keys())

    def keys(self):
        return sorted(self.d, key=lambda k: k.encode("latin-1") if isinstance(k, str) else k) if self.ordered else list(self.d)


class SubVal:
    __slots__ = ("s", "matched")

    def __init__(self, s, matched):
        self.s, self.matched = s, matched


HANDLERS = {}


def h(*ns):
    def deco(f):
        for n in ns:
            HANDLERS.setdefault(n, []).append(f)
        return f
    return deco


# ------------------------------------------------------------------------ helpers
def get(e, st, p, what):
    o = e.obj(st, p, "read")
    f = e.offset(st, p)
    c = o.cells.get(f)
    if c is None:
        if o.base is not None:
            raise Unsupported("constant bytes used as a %s" % what)
        e.fails.append(engine.Fail("defined", "use of a %s that was never constructed" % what, st.ctx.copy(), e.where(st)))
        raise engine.Dead()
    return c[1]


def gets(e, st, p):
    v = get(e, st, p, "string")
    if not isinstance(v, Str):
        raise Unsupported("a string of %r" % (v,))
    return v


def sets(e, st, p, s):
    o = e.obj(st, p, "write")
    e.put(st, o, e.offset(st, p), 32, s)


def cstr(e, st, p):
    """the text of a char const*"""
    o = e.obj(st, p, "read")
    f = e.offset(st, p)
    if isinstance(o.nat, tuple) and o.nat[0] == "cstr":
        if f:
            raise Unsupported("middle of a text")
        return o.nat[1]
    if o.base is None:
        out = []
        while True:
            c = o.cells.get(f)
            if c is None and o.zero:
                break
            if c is None or c[0] != 1 or not isinstance(c[1], int):
                raise Unsupported("text of unknown characters")
            if c[1] == 0:
                break
            out.append(chr(c[1] & 255))
            f += 1
        return lit("".join(out))
    b = o.base
    k = b.find(b"\0", f)
    if k < 0:
        e.fails.append(engine.Fail("memory", "text without an end", st.ctx.copy(), e.where(st)))
        raise engine.Dead()
    return lit(b[f:k].decode("latin-1"))


def decide(e, st, s, L):
    """is the text in L: forks when it can be either"""
    c = strs.member(st.ctx, s, L)
    if isinstance(c, B):
        raise ForkOn(c)
    return c


def concrete(e, st, s):
    """the text itself: forks over its words when there are few"""
    w = s.lit()
    if w is not None:
        return w
    for x in s.p:
        if isinstance(x, int):
            ws = st.ctx.lang(x).words()
            if ws is None or len(ws) > 400:
                raise Unsupported("the text %r has too many values" % (s,))
            if len(ws) > 1:
                raise ForkOn(B("in", x, lang.literal(ws[0])))
        elif not isinstance(x, str):
            raise Unsupported("content of %r" % (s,))
    return "".join(x if isinstance(x, str) else st.ctx.lang(x).words()[0] for x in s.p)


def number(e, st, v, n=64):
    v = e.sn(st, v, n)
    if not isinstance(v, int):
        raise Unsupported("a number that has to be known: %r" % (v,))
    return v


# ------------------------------------------------------------------------ strings
@h("string::basic_string", "string::string")
def string_ctor(e, st, a, name, params):
    this = a[0]
    if params.startswith("()") or params.startswith("(std::allocator"):
        sets(e, st, this, strs.EMPTY)
    elif params.startswith("(char const*, std::allocator"):
        if isinstance(a[1], Ptr) and a[1].o == 0:
            raise Throw(LOGIC, "basic_string: construction from null is not valid")
        sets(e, st, this, cstr(e, st, a[1]))
    elif params.startswith("(char const*, unsigned long"):
        s = cstr(e, st, a[1])
        n = number(e, st, a[2])
        if s.lit() is None or n > len(s.lit()):
            raise Unsupported("part of a text")
        sets(e, st, this, lit(s.lit()[:n]))
    elif params.startswith("(string const&, unsigned long"):
        n = a[3] if params.startswith("(string const&, unsigned long, unsigned long") else NPOS
        sets(e, st, this, sub(e, st, gets(e, st, a[1]), a[2], n))
    elif params.startswith("(string const&"):
        sets(e, st, this, gets(e, st, a[1]))
    elif params.startswith("(string&&"):
        s = gets(e, st, a[1])
        sets(e, st, this, s)
        if a[1] != this:
            sets(e, st, a[1], strs.EMPTY)
    elif params.startswith("(unsigned long, char"):
        sets(e, st, this, lit(chr(number(e, st, a[2], 8) & 255) * number(e, st, a[1])))
    else:
        raise Unsupported("string constructor %s" % params[:80])
    return None


@h("string::~basic_string")
def string_dtor(e, st, a, name, params):
    e.obj(st, a[0], "destruction")
    return None


@h("string::operator=", "string::assign")
def string_assign(e, st, a, name, params):
    if params.startswith("(char const*)"):
        s = cstr(e, st, a[1])
    elif params.startswith("(string const&)"):
        s = gets(e, st, a[1])
    elif params.startswith("(string&&)"):
        s = gets(e, st, a[1])
        if a[1] != a[0]:
            sets(e, st, a[1], strs.EMPTY)
    elif params.startswith("(char)"):
        s = lit(chr(number(e, st, a[1], 8) & 255))
    else:
        raise Unsupported("assignment %s" % params[:80])
    sets(e, st, a[0], s)
    return a[0]


@h("string::append", "string::operator+=")
def string_append(e, st, a, name, params):
    if params.startswith("(char const*)"):
        t = cstr(e, st, a[1])
    elif params.startswith("(string const&)"):
        t = gets(e, st, a[1])
    elif params.startswith("(char)"):
        t = char_str(e, st, a[1])
    else:
        raise Unsupported("append %s" % params[:80])
    sets(e, st, a[0], strs.cat(gets(e, st, a[0]), t))
    return a[0]


@h("string::push_back")
def string_push(e, st, a, name, params):
    sets(e, st, a[0], strs.cat(gets(e, st, a[0]), char_str(e, st, a[1])))
    return None


def char_str(e, st, c):
    c = e.sn(st, c, 8)
    if isinstance(c, int):
        return lit(chr(c & 255))
    raise Unsupported("unknown character")


@h("std::operator+")
def string_plus(e, st, a, name, params):
    m = re.match(r"\((.*), (.*)\)", params)
    out = []
    for p, t in zip(a[1:], m.groups()):
        if t.startswith("char const*"):
            out.append(cstr(e, st, p))
        elif t.startswith("string"):
            out.append(gets(e, st, p))
        elif t == "char":
            out.append(char_str(e, st, p))
        else:
            return None
    sets(e, st, a[0], strs.cat(*out))
    return None


@h("string::empty")
def string_empty(e, st, a, name, params):
    return decide(e, st, gets(e, st, a[0]), lang.EPS)


@h("string::length", "string::size")
def string_length(e, st, a, name, params):
    return strs.length(st.ctx, gets(e, st, a[0]))


@h("string::clear")
def string_clear(e, st, a, name, params):
    sets(e, st, a[0], strs.EMPTY)


@h("string::c_str", "string::data")
def string_cstr(e, st, a, name, params):
    s = gets(e, st, a[0])
    o = st.new(1 << 30, "const", "text")
    o.nat = ("cstr", s)
    if s.lit() is not None:
        o.base = s.lit().encode("latin-1") + b"\0"
        o.size = len(o.base)
        o.nat = None
    return Ptr(o.id, 0)


def starts(w):
    return lang.starting(w)


@h("string::starts_with")
def string_starts(e, st, a, name, params):
    w = cstr(e, st, a[1]) if params.startswith("(char const*") else gets(e, st, a[1])
    return decide(e, st, gets(e, st, a[0]), starts(known(w)))


def known(s):
    w = s.lit()
    if w is None:
        raise Unsupported("search for an unknown text")
    return w


@h("string::compare")
def string_compare(e, st, a, name, params):
    s = gets(e, st, a[0])
    if params.startswith("(char const*)"):
        t = cstr(e, st, a[1])
    elif params.startswith("(string const&)"):
        t = gets(e, st, a[1])
    elif params.startswith("(unsigned long, unsigned long, char const*)") or params.startswith("(unsigned long, unsigned long, string const&)"):
        t = cstr(e, st, a[3]) if "char" in params else gets(e, st, a[3])
        pos, n = number(e, st, a[1]), number(e, st, a[2])
        if pos == 0 and n >= 0 and t.lit() is not None and n == len(t.lit()):
            return 0 if decide(e, st, s, starts(t.lit())) else Cmp()
        s = sub(e, st, s, pos, n)
    else:
        raise Unsupported("compare %s" % params)
    if s.lit() is not None and t.lit() is not None:
        x, y = s.lit(), t.lit()
        return 0 if x == y else -1 if x < y else 1
    return 0 if same(e, st, s, t) else Cmp()


class Cmp(FindV):
    """Result of a comparison that is not equality: some number other than 0."""
    __slots__ = ()

    def __init__(self):
        FindV.__init__(self, None, None)


def same(e, st, s, t):
    if s.lit() is None and t.lit() is not None:
        s, t = t, s
    if s.lit() is not None:
        if any(isinstance(x, tuple) for x in t.p):
            raise Unsupported("comparison of a rendered text")
        return decide(e, st, t, lang.literal(s.lit()))
    if s.p == t.p:
        return True
    raise Unsupported("comparison of two unknown texts")


@h("std::operator==", "std::operator!=")
def string_eq(e, st, a, name, params):
    m = re.match(r"\((string const&|char const\*), (string const&|char const\*)\)", params)
    if not m:
        return "skip"
    s, t = [gets(e, st, p) if k.startswith("string") else cstr(e, st, p) for p, k in zip(a, m.groups())]
    r = same(e, st, s, t)
    return r if "eqI" in name or name.startswith("_ZSteq") else not r


@h("string::find")
def string_find(e, st, a, name, params):
    s = gets(e, st, a[0])
    if params.startswith("(char const*, unsigned long)"):
        w = cstr(e, st, a[1])
    elif params.startswith("(string const&, unsigned long)"):
        w = gets(e, st, a[1])
    elif params.startswith("(char, unsigned long)"):
        w = char_str(e, st, a[1])
    else:
        raise Unsupported("find %s" % params)
    w = known(w)
    pos = number(e, st, a[2])
    if s.lit() is not None:
        return s.lit().find(w, pos) if pos >= 0 else -1
    if pos != 0:
        raise Unsupported("find from a position")
    return FindV(s, w)


@h("string::rfind")
def string_rfind(e, st, a, name, params):
    s = gets(e, st, a[0])
    w = known(cstr(e, st, a[1]) if params.startswith("(char const*") else gets(e, st, a[1]) if params.startswith("(string") else char_str(e, st, a[1]))
    pos = number(e, st, a[2])
    if s.lit() is not None:
        return s.lit().rfind(w) if pos < 0 else s.lit().rfind(w, 0, pos + len(w))
    if pos == 0:
        return 0 if decide(e, st, s, starts(w)) else -1
    raise Unsupported("rfind")


class Models:
    pass


def eq_text(e, st, a, b):
    """equality involving a search result or an unknown character"""
    if isinstance(b, (FindV, SChar)) and not isinstance(a, (FindV, SChar)):
        a, b = b, a
    if isinstance(a, Cmp):
        if isinstance(b, int) and b == 0:
            return False
        raise Unsupported("value of a comparison")
    if isinstance(a, FindV):
        if isinstance(b, FindV):
            raise Unsupported("two search results compared")
        k = number(e, st, b)
        if k == -1:
            return not decide(e, st, a.s, lang.containing(a.pat))
        if k == 0:
            return decide(e, st, a.s, starts(a.pat))
        raise Unsupported("position of a search result")
    if isinstance(b, SChar):
        raise Unsupported("two unknown characters compared")
    k = number(e, st, b, 8) & 255
    return char_in(e, st, a, 1 << k)


def char_in(e, st, c, mask):
    anyc = ("set", rx.ALL)
    if c.i >= 0:
        n = ("cat", tuple([anyc] * c.i + [("set", mask), ("rep", anyc, 0, None, True)]))
    else:
        n = ("cat", tuple([("rep", anyc, 0, None, True), ("set", mask)] + [anyc] * (-c.i - 1)))
    return decide(e, st, c.s, lang.from_ast(n))


def cmp_text(e, st, pred, a, b, n):
    swap = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}
    k = pred[1:]
    if not isinstance(a, (FindV, SChar)):
        a, b, k = b, a, swap[k]
    if not isinstance(b, int):
        raise Unsupported("order of unknown texts")
    if isinstance(a, Cmp):
        raise Unsupported("order of unknown texts")
    if isinstance(a, FindV):
        if pred[0] == "u":
            # as an unsigned number: absent is the largest
            if (k, b) in (("lt", 1), ("le", 0), ("gt", 0), ("ge", 1)):
                r = decide(e, st, a.s, starts(a.pat))
                return r if k in ("lt", "le") else not r
            if k in ("lt",) and b in (-1, (1 << n) - 1):
                return decide(e, st, a.s, lang.containing(a.pat))
        if pred[0] == "s":
            if (k, b) in (("ge", 0), ("gt", -1)):
                return decide(e, st, a.s, lang.containing(a.pat))
            if (k, b) in (("lt", 0), ("le", -1)):
                return not decide(e, st, a.s, lang.containing(a.pat))
        raise Unsupported("position of a search result")
    m = 0
    for c in range(256):
        v = c if pred[0] == "u" else (c if c < 128 else c - 256)
        if {"lt": v < b, "le": v <= b, "gt": v > b, "ge": v >= b}[k]:
            m |= 1 << c
    return char_in(e, st, a, m)


@h("string::operator[]", "string::at", "string::front", "string::back")
def string_at(e, st, a, name, params):
    s = gets(e, st, a[0])
    fn = names.split(e.m.demangle(name))[0]
    if fn.endswith("front"):
        i = 0
    elif fn.endswith("back"):
        i = -1
    else:
        i = number(e, st, a[1])
    w = s.lit()
    if fn.endswith("front") or fn.endswith("back"):
        if decide(e, st, s, lang.EPS):
            e.fails.append(engine.Fail("memory", "first or last character of an empty text", st.ctx.copy(), e.where(st)))
            raise engine.Dead()
    elif fn.endswith("at"):
        if not decide(e, st, s, lang.of_len(i + 1, None)):
            raise Throw(OOR, "basic_string::at")
    elif not decide(e, st, s, lang.of_len(i, None)):
        e.fails.append(engine.Fail("memory", "character past the end of a text", st.ctx.copy(), e.where(st)))
        raise engine.Dead()
    o = st.new(1, "heap", "character")
    if w is not None:
        c = ord(w[i]) if i < len(w) else 0
        v = c if c < 128 else c - 256
    else:
        if fn.endswith("operator[]") and not decide(e, st, s, lang.of_len(i + 1, None)):
            v = 0
        else:
            v = SChar(s, i)
    o.cells[0] = (1, v)
    o.kind = "const"
    return Ptr(o.id, 0)


@h("string::pop_back")
def string_pop(e, st, a, name, params):
    s = gets(e, st, a[0])
    if decide(e, st, s, lang.EPS):
        e.fails.append(engine.Fail("memory", "pop_back on an empty text", st.ctx.copy(), e.where(st)))
        raise engine.Dead()
    p = s.p
    if isinstance(p[-1], str):
        sets(e, st, a[0], mk(p[:-1] + (p[-1][:-1],)))
        return None
    raise Unsupported("pop_back on an unknown text")


def split(e, st, s, pos, names_=("cut",)):
    """(before, after) of a position"""
    if isinstance(pos, int) and pos == 0:
        return (), s.p
    ctx = st.ctx
    for i in range(len(s.p) + 1):
        n = strs.length(ctx, mk(s.p[:i]))
        d = vals.add(pos, vals.scale(n, -1))
        if isinstance(d, int):
            if d == 0:
                return s.p[:i], s.p[i:]
            if d < 0:
                k = -d
                x = s.p[i - 1]
                if isinstance(x, str):
                    if k <= len(x):
                        return s.p[:i - 1] + (x[:-k],), (x[-k:],) + s.p[i:]
                elif isinstance(x, int):
                    # k characters before the end of an unknown piece
                    if ctx.decide(vals.le(k, strs.length(ctx, mk((x,))))) is True:
                        ctx.setlang(x, lang.inter(ctx.lang(x), lang.of_len(k, None)))
                    if not decide(e, st, mk((x,)), lang.of_len(k, None)):
                        raise Unsupported("position before an unknown text")
                    lo, hi = ctx.lang(x).lengths()
                    anyk = lang.of_len(k, k)
                    nm = "%s[-%d:]" % (vals.LEAVES[x][0], k)
                    key = ("tail", x, k)
                    y = _CUTS.get(key)
                    if y is None:
                        y = _CUTS[key] = (vals.leaf("%s[:-%d]" % (vals.LEAVES[x][0], k), lang.ALL), vals.leaf(nm, lang.inter(anyk, lang.ALL)))
                    st.notes.add("the last characters of an unknown text are taken as free")
                    return s.p[:i - 1] + (y[0],), (y[1],) + s.p[i:]
                break
            if i < len(s.p) and isinstance(s.p[i], str) and d < len(s.p[i]):
                return s.p[:i] + (s.p[i][:d],), (s.p[i][d:],) + s.p[i + 1:]
            if i < len(s.p) and isinstance(s.p[i], int):
                x = s.p[i]
                if decide(e, st, mk((x,)), lang.of_len(d, d)):
                    continue
                if decide(e, st, mk((x,)), lang.of_len(0, d)):
                    continue
                L = ctx.lang(x)
                # a prefix of d characters
                ws = L.words()
                key = ("head", x, d)
                y = _CUTS.get(key)
                if y is None:
                    y = _CUTS[key] = (vals.leaf("%s[:%d]" % (vals.LEAVES[x][0], d), lang.of_len(d, d)), vals.leaf("%s[%d:]" % (vals.LEAVES[x][0], d), lang.ALL))
                st.notes.add("the first characters of an unknown text are taken as free")
                return s.p[:i] + (y[0],), (y[1],) + s.p[i + 1:]
    raise Unsupported("position %r in %r" % (pos, s))


_CUTS = {}


def sub(e, st, s, pos, n):
    pos, n = e.sn(st, pos, 64), e.sn(st, n, 64)
    w = s.lit()
    if w is not None and isinstance(pos, int):
        if not 0 <= pos <= len(w):
            raise Throw(OOR, "basic_string::substr")
        if isinstance(n, int):
            return lit(w[pos:] if n < 0 else w[pos:pos + n])
    if isinstance(pos, int) and pos < 0:
        raise Throw(OOR, "basic_string::substr")
    ln = strs.length(st.ctx, s)
    if not e.truth(st, vals.conj(vals.le(0, pos), vals.le(pos, ln))):
        raise Throw(OOR, "basic_string::substr")
    _, rest = split(e, st, s, pos)
    if isinstance(n, int) and n < 0:
        return mk(rest)
    r = mk(rest)
    if not isinstance(n, int):
        if e.truth(st, vals.lt(n, 0)):
            return r
        if e.truth(st, vals.le(strs.length(st.ctx, r), n)):
            return r
    else:
        if w is None and decide(e, st, r, lang.of_len(0, n)):
            return r
    head, _ = split(e, st, r, n)
    return mk(head)


@h("string::substr")
def string_substr(e, st, a, name, params):
    sets(e, st, a[0], sub(e, st, gets(e, st, a[1]), a[2], a[3]))
    return None


class SIt:
    """An iterator into a string."""
    __slots__ = ("p", "end")

    def __init__(self, p, end):
        self.p, self.end = p, end


@h("string::begin", "string::end", "string::cbegin", "string::cend")
def string_begin(e, st, a, name, params):
    gets(e, st, a[0])
    fn = names.split(e.m.demangle(name))[0]
    return SIt(a[0], fn.endswith("end"))


TOLOWER = {c: c + 32 for c in range(65, 91)}
TOUPPER = {c: c - 32 for c in range(97, 123)}


def casing(e, st, s, up):
    out = []
    for x in s.p:
        if isinstance(x, str):
            out.append(x.translate(TOUPPER if up else TOLOWER))
        elif isinstance(x, int):
            L = st.ctx.lang(x)
            other = rx.LOWER if up else rx.UPPER
            if ("up" if up else "low", x) not in _CUTS and lang.inter(L, with_char(other)).empty():
                out.append(x)                    # nothing to change
                continue
            if up is False or True:
                out.append(cased(st, x, up))
        elif isinstance(x, tuple) and x[0] == "up" and up:
            out.append(x)
        else:
            raise Unsupported("case of a rendered text")
    return mk(out)


def cased(st, x, up):
    """the upper or lower case form of an unknown text, as a text of its own"""
    key = ("up" if up else "low", x)
    y = _CUTS.get(key)
    if y is None:
        L = vals.LEAVES[x][1]
        y = _CUTS[key] = vals.leaf("%s(%s)" % ("toupper" if up else "tolower", vals.LEAVES[x][0]), lang.cased(L, up))
        CASED[y] = (x, up)
    if x in st.ctx.dom:
        st.ctx.setlang(y, lang.inter(st.ctx.lang(y), lang.cased(st.ctx.lang(x), up)))
    return y


CASED = {}


def with_char(mask):
    anyc = ("rep", ("set", rx.ALL), 0, None, True)
    return lang.from_ast(("cat", (anyc, ("set", mask), anyc)))


@h("std::transform")
def transform(e, st, a, name, params):
    b, en, out, f = a[0], a[1], a[2], a[3]
    if not (isinstance(b, SIt) and isinstance(en, SIt) and isinstance(out, SIt) and not b.end and en.end and not out.end
            and b.p == en.p and b.p == out.p and isinstance(f, Fn) and f.name in ("tolower", "toupper")):
        raise Unsupported("transform")
    sets(e, st, b.p, casing(e, st, gets(e, st, b.p), f.name == "toupper"))
    return SIt(b.p, True)


@h("std::replace")
def replace_chars(e, st, a, name, params):
    b, en = a[0], a[1]
    if not (isinstance(b, SIt) and isinstance(en, SIt) and not b.end and en.end and b.p == en.p):
        raise Unsupported("replace")
    x, y = (number(e, st, e.load(st, p, ("i", 8)), 8) & 255 for p in a[2:4])
    s = gets(e, st, b.p)
    out = []
    for w in s.p:
        if isinstance(w, str):
            out.append(w.replace(chr(x), chr(y)))
        elif isinstance(w, int):
            if lang.inter(st.ctx.lang(w), with_char(1 << x)).empty():
                out.append(w)
            elif len([z for z in s.p if z != ""]) == 1:
                out += rewritten(st, w, ("chars", ((1 << x, chr(y)),)), "with %r for %r" % (chr(y), chr(x))).p
            else:
                raise Unsupported("replacement in a text of several parts")
        else:
            raise Unsupported("replacement in a rendered text")
    sets(e, st, b.p, mk(out))
    return None


@h("tolower", "toupper")
def to_case(e, st, a, name, params):
    c = e.sn(st, a[0], 32)
    if isinstance(c, int):
        t = TOLOWER if name == "tolower" else TOUPPER
        return t.get(c, c)
    raise Unsupported("case of an unknown character")


@h("std::stoi", "std::stol", "std::stoul", "std::stoll")
def stoi(e, st, a, name, params):
    s = gets(e, st, a[0])
    if len(a) > 2 and number(e, st, a[2], 32) != 10:
        raise Unsupported("number in another base")
    if isinstance(a[1], Ptr) and a[1].o:
        raise Unsupported("stoi with a position")
    k = strs.digits(st.ctx, s)
    if k[0] == "cond":
        raise ForkOn(k[1])
    fn = names.split(e.m.demangle(name))[0].split("::")[-1]
    if k[0] == "none":
        raise Throw(INVARG, fn)
    if k[0] == "odd":
        raise Unsupported("number in %r" % (s,))
    n = k[1] if k[0] == "num" else vals.scale(k[1], -1)
    hi = INT_MAX if fn == "stoi" else (1 << 63) - 1
    if not e.truth(st, vals.conj(vals.le(-hi - 1, n), vals.le(n, hi))):
        raise Throw(OOR, fn)
    return n


@h("std::stod")
def stod(e, st, a, name, params):
    """a decimal number without fraction or exponent; beyond 2^53 it is rounded"""
    s = gets(e, st, a[0])
    if isinstance(a[1], Ptr) and a[1].o:
        raise Unsupported("stod with a position")
    L = decide_digits(e, st, s)
    k = strs.digits(st.ctx, s)
    if k[0] == "cond":
        raise ForkOn(k[1])
    if not L or k[0] != "num":
        raise Unsupported("stod of %r" % (s,))
    n = k[1]
    big = 1 << 53
    if isinstance(n, int):
        return int(float(n)) if n < 1 << 1000 else 1 << 1000
    if e.truth(st, vals.le(n, big)):
        return n
    if e.truth(st, B("bool", ("stod overflow", n))):
        raise Throw(OOR, "stod")
    return vals.var(("stod", n), big, vals.INF)


def decide_digits(e, st, s):
    return decide(e, st, s, lang.DIGITS)


@h("std::stof", "std::atof", "atoi", "strtol")
def other_number(e, st, a, name, params):
    raise Unsupported("conversion %s" % name)


@h("std::to_string")
def to_string(e, st, a, name, params):
    n = e.sn(st, a[1], 64 if "long" in params else 32)
    if isinstance(n, int):
        sets(e, st, a[0], lit(str(n)))
    else:
        sets(e, st, a[0], mk([("num", vals.lkey(n))]))
    return None


# ------------------------------------------------------------------------ maps
def mapof(e, st, p):
    v = get(e, st, p, "map")
    if not isinstance(v, MapVal):
        raise Unsupported("a map of %r" % (v,))
    return v


def mapsize(name):
    return 56 if "unordered" in name else 48


def setmap(e, st, p, v, size):
    o = e.obj(st, p, "write")
    e.put(st, o, e.offset(st, p), size, v)


KT = re.compile(r"(?:std::)?(unordered_map|map)$")


def kinds(e, name):
    """(class, string keys?, value type, entry value offset)"""
    s, params, targs = names.split(e.m.demangle(name))
    cls = s.split("::")[1] if s.startswith("std::") else s
    depth, parts, cur = 0, [], []
    for c in targs:
        if c == "<":
            depth += 1
        if c == ">":
            depth -= 1
        if c == "," and depth == 0:
            parts.append("".join(cur).strip())
            cur = []
            continue
        cur.append(c)
    parts.append("".join(cur).strip())
    return cls, parts[0], parts[1]


VT = {"std::pair<bool, int>": (None, 8), "bool": (("i", 8), 1), "int": (("i", 32), 4), "unsigned int": (("i", 32), 4),
      "unsigned short": (("i", 16), 2), "double": (("d",), 8), "short": (("i", 16), 2), "long": (("i", 64), 8), "string": (("str",), 32)}


def vsize(vt):
    if vt not in VT:
        raise Unsupported("map of %s" % vt)
    return VT[vt][1]


def koff(kt):
    return 4 if kt == "utils::modifiers" or kt == "int" else 32


def voff(kt, vt):
    k, a = koff(kt), (1 if vt == "bool" else 4 if vt == "std::pair<bool, int>" else vsize(vt) if vt != "string" else 8)
    return (k + a - 1) // a * a


def zero_entry(e, st, owner, key, kt, vt):
    vo = voff(kt, vt)
    o = st.new(vo + vsize(vt), "heap", "map entry %r" % (key,))
    if owner.kind in ("global", "const"):
        o.kind, o.name = "global", owner.name
    kc = lit(key) if isinstance(key, str) else key
    o.cells[0] = (koff(kt), kc)
    if vt == "std::pair<bool, int>":
        o.cells[vo] = (1, 0)
        o.cells[vo + 4] = (4, 0)
    elif vt == "string":
        o.cells[vo] = (32, strs.EMPTY)
    else:
        o.cells[vo] = (vsize(vt), 0)
    return o


def copy_map(e, st, m, owner):
    d = {}
    for k, oid in m.d.items():
        x = st.heap[oid]
        o = st.new(x.size, "heap", x.name)
        if owner.kind in ("global", "const"):
            o.kind, o.name = "global", owner.name
        elif x.kind == "global":
            o.name = "map entry %r" % (k,)
        o.cells = dict(x.cells)
        d[k] = o.id
    if m.maybe:
        mb = {}
        for k, (c, oid) in m.maybe.items():
            if k not in d:
                x = st.heap[oid]
                o = st.new(x.size, "heap", x.name)
                o.cells = dict(x.cells)
                mb[k] = (c, o.id)
        return MapVal(d, m.ordered, mb)
    return MapVal(d, m.ordered)


def resolved(e, st, p):
    """the map with all its unknown entries decided"""
    m = mapof(e, st, p)
    if not m.maybe:
        return m
    d = dict(m.d)
    for k, (c, oid) in m.maybe.items():
        if k not in d and e.truth(st, c):
            d[k] = oid
    m = MapVal(d, m.ordered)
    o = e.obj(st, p)
    f = e.offset(st, p)
    st.w(p.o).cells[f] = (o.cells[f][0], m)
    return m


def getkey(e, st, p, kt):
    if kt == "string":
        return gets(e, st, p)
    v = e.load(st, p, ("i", 32))
    return number(e, st, v, 32)


def lookup(e, st, m, key, kt, vt):
    """entry object id, or None"""
    w = key.lit() if isinstance(key, Str) else key
    if w is not None:
        oid = m.d.get(w)
        if oid is None and m.maybe and w in m.maybe and e.truth(st, m.maybe[w][0]):
            return m.maybe[w][1]
        return oid
    if m.maybe:
        for w in sorted({*m.d, *m.maybe}):
            if decide(e, st, key, lang.from_words([w])):
                return lookup(e, st, m, lit(w), kt, vt)
        return None
    if any(isinstance(x, tuple) for x in key.p):
        raise Unsupported("lookup of a rendered text")
    if not decide(e, st, key, lang.from_words(m.d)):
        return None
    vo = voff(kt, vt)
    ck = ("entry", tuple(sorted(m.d.items())), key)
    oid = st.glob.get(ck)
    if oid is not None:
        return oid
    table = {}
    if vt == "std::pair<bool, int>" or vt == "string":
        w = concrete(e, st, key)
        return m.d[w]
    for k, x in m.d.items():
        v = st.heap[x].cells[vo][1]
        if not isinstance(v, int):
            w = concrete(e, st, key)
            return m.d[w]
        table[k] = v
    try:
        v = strs.table(st.ctx, key, table)
    except Unsupported:
        return m.d[concrete(e, st, key)]
    o = st.new(vo + vsize(vt), "const", "map entry")
    o.cells[0] = (32, key)
    o.cells[vo] = (vsize(vt), v)
    # writes through it would change one of several entries
    anyid = next(iter(m.d.values()))
    o.kind = st.heap[anyid].kind if st.heap[anyid].kind == "global" else "const"
    o.name = st.heap[anyid].name if o.kind == "global" else "map entry"
    return o.id


@h("std::map::map", "std::unordered_map::unordered_map")
def map_ctor(e, st, a, name, params):
    cls, kt, vt = kinds(e, name)
    vsize(vt)
    n = mapsize(cls)
    o = e.obj(st, a[0], "write")
    if params.startswith("()"):
        setmap(e, st, a[0], MapVal({}, cls == "map"), n)
    elif params.startswith("(std::initializer_list"):
        d = {}
        base, cnt = a[1], number(e, st, a[2])
        vo = voff(kt, vt)
        al = 8 if kt == "string" else 4
        size = (vo + vsize(vt) + al - 1) // al * al
        for i in range(cnt):
            p = Ptr(base.o, vals.add(base.f, i * size))
            k = getkey(e, st, p, kt)
            k = known(k) if isinstance(k, Str) else k
            if k in d:
                continue
            x = zero_entry(e, st, o, k, kt, vt)
            copy_value(e, st, x, Ptr(p.o, vals.add(p.f, vo)), vo, vt)
            d[k] = x.id
        setmap(e, st, a[0], MapVal(d, cls == "map"), n)
    elif params.startswith("(std::%s" % cls):
        src = mapof(e, st, a[1])
        if "&&" in params[-4:] or params.rstrip(")").endswith("&&"):
            setmap(e, st, a[0], src, n)
            setmap(e, st, a[1], MapVal({}, cls == "map"), n)
        else:
            setmap(e, st, a[0], copy_map(e, st, src, o), n)
    else:
        raise Unsupported("map constructor %s" % params[:80])
    return None


def copy_value(e, st, x, p, vo, vt):
    if vt == "std::pair<bool, int>":
        x.cells[vo] = (1, e.load(st, p, ("i", 8)))
        x.cells[vo + 4] = (4, e.load(st, Ptr(p.o, vals.add(p.f, 4)), ("i", 32)))
    elif vt == "string":
        x.cells[vo] = (32, gets(e, st, p))
    else:
        x.cells[vo] = (vsize(vt), e.load(st, p, VT[vt][0]))


@h("std::map::~map", "std::unordered_map::~unordered_map")
def map_dtor(e, st, a, name, params):
    e.obj(st, a[0], "destruction")
    return None


@h("std::map::operator=", "std::unordered_map::operator=")
def map_assign(e, st, a, name, params):
    cls, kt, vt = kinds(e, name)
    src = mapof(e, st, a[1])
    if a[0] != a[1]:
        if params.rstrip(")").endswith("&&"):
            setmap(e, st, a[0], src, mapsize(cls))
            setmap(e, st, a[1], MapVal({}, cls == "map"), mapsize(cls))
        else:
            setmap(e, st, a[0], copy_map(e, st, src, e.obj(st, a[0])), mapsize(cls))
    return a[0]


@h("std::map::operator[]", "std::unordered_map::operator[]")
def map_index(e, st, a, name, params):
    cls, kt, vt = kinds(e, name)
    m = mapof(e, st, a[0])
    key = getkey(e, st, a[1], kt)
    oid = lookup(e, st, m, key, kt, vt)
    if oid is None:
        if isinstance(key, Str) and key.lit() is None:
            if e.obj(st, a[0]).kind == "global" and not e.initialising:
                e.fails.append(engine.Fail("frame", "the call adds a word to %s" % e.obj(st, a[0]).name, st.ctx.copy(), e.where(st)))
                raise engine.Dead()
            raise Unsupported("unknown key added to a map")
        k = key.lit() if isinstance(key, Str) else key
        x = zero_entry(e, st, e.obj(st, a[0]), k, kt, vt)
        d = dict(m.d)
        d[k] = oid = x.id
        setmap(e, st, a[0], MapVal(d, m.ordered, m.maybe), mapsize(cls))
    return Ptr(oid, voff(kt, vt))


@h("std::map::at", "std::unordered_map::at")
def map_at(e, st, a, name, params):
    cls, kt, vt = kinds(e, name)
    oid = lookup(e, st, mapof(e, st, a[0]), getkey(e, st, a[1], kt), kt, vt)
    if oid is None:
        raise Throw(OOR, "map::at")
    return Ptr(oid, voff(kt, vt))


@h("std::map::count", "std::unordered_map::count", "std::map::contains", "std::unordered_map::contains")
def map_count(e, st, a, name, params):
    cls, kt, vt = kinds(e, name)
    return 0 if lookup(e, st, mapof(e, st, a[0]), getkey(e, st, a[1], kt), kt, vt) is None else 1


@h("std::map::size", "std::unordered_map::size")
def map_size(e, st, a, name, params):
    return len(resolved(e, st, a[0]).d)


@h("std::map::empty", "std::unordered_map::empty")
def map_empty(e, st, a, name, params):
    return not resolved(e, st, a[0]).d


@h("std::map::erase", "std::unordered_map::erase")
def map_erase(e, st, a, name, params):
    cls, kt, vt = kinds(e, name)
    if "iterator" in params:
        raise Unsupported("erase by iterator")
    key = getkey(e, st, a[1], kt)
    key = known(key) if isinstance(key, Str) else key
    m = mapof(e, st, a[0])
    oid = lookup(e, st, m, lit(key) if isinstance(key, str) else key, kt, vt)
    setmap(e, st, a[0], MapVal({k: x for k, x in m.d.items() if k != key}, m.ordered, {k: x for k, x in (m.maybe or {}).items() if k != key}), mapsize(cls))
    return int(oid is not None)


@h("std::map::clear", "std::unordered_map::clear")
def map_clear(e, st, a, name, params):
    cls, kt, vt = kinds(e, name)
    setmap(e, st, a[0], MapVal({}, cls == "map"), mapsize(cls))


def endof(p):
    return Ptr(p.o, vals.add(p.f, 8))


@h("std::map::find", "std::unordered_map::find")
def map_find(e, st, a, name, params):
    cls, kt, vt = kinds(e, name)
    oid = lookup(e, st, mapof(e, st, a[0]), getkey(e, st, a[1], kt), kt, vt)
    if oid is None:
        return endof(a[0])
    return It(oid, a[0])


class It(Ptr):
    """A map iterator: the entry, and the map it belongs to."""
    __slots__ = ("m",)

    def __init__(self, oid, m):
        Ptr.__init__(self, oid, 0)
        self.m = m


@h("std::map::begin", "std::unordered_map::begin", "std::map::cbegin", "std::unordered_map::cbegin")
def map_begin(e, st, a, name, params):
    m = resolved(e, st, a[0])
    ks = m.keys()
    return It(m.d[ks[0]], a[0]) if ks else endof(a[0])


@h("std::map::end", "std::unordered_map::end", "std::map::cend", "std::unordered_map::cend")
def map_end(e, st, a, name, params):
    mapof(e, st, a[0])
    return endof(a[0])


@h("std::_Rb_tree_iterator::operator*", "std::_Rb_tree_iterator::operator->", "std::_Rb_tree_const_iterator::operator*",
   "std::_Rb_tree_const_iterator::operator->", "std::__detail::_Node_iterator::operator*", "std::__detail::_Node_iterator::operator->",
   "std::__detail::_Node_const_iterator::operator*", "std::__detail::_Node_const_iterator::operator->")
def it_deref(e, st, a, name, params):
    p = e.load(st, a[0], ir.PTR)
    if not isinstance(p, It):
        e.fails.append(engine.Fail("memory", "the end of a map is dereferenced", st.ctx.copy(), e.where(st)))
        raise engine.Dead()
    e.obj(st, p)
    return Ptr(p.o, 0)


@h("std::_Rb_tree_iterator::operator++", "std::_Rb_tree_const_iterator::operator++", "std::__detail::_Node_iterator::operator++",
   "std::__detail::_Node_const_iterator::operator++")
def it_next(e, st, a, name, params):
    if "int" in params:
        raise Unsupported("iterator++")
    p = e.load(st, a[0], ir.PTR)
    if not isinstance(p, It):
        e.fails.append(engine.Fail("memory", "a map is iterated past its end", st.ctx.copy(), e.where(st)))
        raise engine.Dead()
    m = resolved(e, st, p.m)
    ks = m.keys()
    k = [k for k in ks if m.d[k] == p.o]
    if not k:
        raise Unsupported("iterator into a changed map")
    i = ks.index(k[0]) + 1
    e.store(st, a[0], ir.PTR, It(m.d[ks[i]], p.m) if i < len(ks) else endof(p.m))
    return a[0]


@h("std::map::insert", "std::unordered_map::insert", "std::map::emplace", "std::unordered_map::emplace")
def map_insert(e, st, a, name, params):
    cls, kt, vt = kinds(e, name)
    if "pair" not in params.split(",")[0] or params.count(",") > 12:
        raise Unsupported("insert %s" % params[:80])
    m = mapof(e, st, a[0])
    key = getkey(e, st, a[1], kt)
    if isinstance(key, Str):
        key = known(key)
    if m.maybe and isinstance(key, Str):
        raise Unsupported("an unknown key in an unknown map")
    oid = m.d.get(key)
    if oid is None and m.maybe and key in m.maybe and e.truth(st, m.maybe[key][0]):
        oid = m.maybe[key][1]
    if oid is not None:
        return [It(oid, a[0]), 0]
    x = zero_entry(e, st, e.obj(st, a[0]), key, kt, vt)
    vo = voff(kt, vt)
    copy_value(e, st, x, Ptr(a[1].o, vals.add(a[1].f, vo)), vo, vt)
    d = dict(m.d)
    d[key] = x.id
    setmap(e, st, a[0], MapVal(d, m.ordered, m.maybe), mapsize(cls))
    return [It(x.id, a[0]), 1]


@h("std::map::insert_or_assign", "std::unordered_map::insert_or_assign", "std::map::try_emplace", "std::unordered_map::try_emplace")
def map_put(e, st, a, name, params):
    cls, kt, vt = kinds(e, name)
    key = getkey(e, st, a[1], kt)
    if not params.startswith("(") or params.count(",") > 12 or len(a) != 3 or isinstance(key, Str) and key.lit() is None:
        raise Unsupported("insert %s" % params[:80])
    fresh = lookup(e, st, mapof(e, st, a[0]), key, kt, vt) is None
    p = map_index(e, st, a, name, params)
    if fresh or "insert_or_assign" in names.split(e.m.demangle(name))[0]:
        copy_value(e, st, e.obj(st, p, "write"), a[2], p.f, vt)
    return [It(p.o, a[0]), int(fresh)]


# ------------------------------------------------------------------------ regular expressions
def rxof(e, st, p):
    v = get(e, st, p, "regular expression")
    if not isinstance(v, Rx):
        raise Unsupported("a regular expression of %r" % (v,))
    return v


def setrx(e, st, p, v):
    o = e.obj(st, p, "write")
    e.put(st, o, e.offset(st, p), 32, v)


@h("std::basic_regex::basic_regex")
def regex_ctor(e, st, a, name, params):
    if params.startswith("()"):
        v = Rx("", False)
    elif params.startswith("(char const*") or params.startswith("(string const&"):
        s = cstr(e, st, a[1]) if params.startswith("(char") else gets(e, st, a[1])
        flags = number(e, st, a[2], 32)
        if flags & ~0x1f:
            raise Unsupported("regular expression flags")
        v = Rx(known(s), bool(flags & 1))
        v.ast()
    elif params.startswith("(std::basic_regex"):
        v = rxof(e, st, a[1])
    else:
        raise Unsupported("regular expression constructor %s" % params[:80])
    setrx(e, st, a[0], v)
    return None


@h("std::basic_regex::operator=")
def regex_assign(e, st, a, name, params):
    if not params.startswith("(std::basic_regex"):
        raise Unsupported("regular expression assignment")
    setrx(e, st, a[0], rxof(e, st, a[1]))
    return a[0]


@h("std::basic_regex::~basic_regex", "std::match_results::~match_results")
def regex_dtor(e, st, a, name, params):
    e.obj(st, a[0], "destruction")
    return None


def anchored(n):
    """(expression, at the start?, at the end?) without its outer anchors, or None"""
    xs = list(n[1]) if n[0] == "cat" else [n]
    a = b = False
    if xs and xs[0][0] == "bol":
        a = True
        xs = xs[1:]
    if xs and xs[-1][0] == "eol":
        b = True
        xs = xs[:-1]
    n = ("cat", tuple(xs))
    if rx.has_assert(n):
        return None
    return n, a, b


ANYS = ("rep", ("set", rx.ALL), 0, None, True)


def search_lang(r, whole):
    t = anchored(r.ast())
    if t is None:
        raise Unsupported("assertions in %r" % r.pat)
    n, a, b = t
    xs = [n]
    if not whole:
        if not a:
            xs = [ANYS] + xs
        if not b:
            xs = xs + [ANYS]
    return lang.from_ast(("cat", tuple(xs)))


def concrete_match(s, r, whole):
    p = r.py()
    m = p.fullmatch(s) if whole else p.search(s)
    if not m:
        return MatchVal((s,), {}, r.groups() + 1, ok=False)
    cuts = sorted({0, len(s)} | {x for g in range(r.groups() + 1) for x in m.span(g) if x >= 0})
    pieces = tuple(s[i:j] for i, j in zip(cuts, cuts[1:]))
    idx = {c: i for i, c in enumerate(cuts)}
    g = {k: (idx[m.span(k)[0]], idx[m.span(k)[1]]) for k in range(r.groups() + 1) if m.span(k)[0] >= 0}
    return MatchVal(pieces, g, r.groups() + 1)


@h("std::regex_search", "std::regex_match")
def regex_search(e, st, a, name, params):
    fn = names.split(e.m.demangle(name))[0]
    whole = fn.endswith("regex_match")
    if not params.startswith("(string const&"):
        raise Unsupported("%s %s" % (fn, params[:60]))
    s = gets(e, st, a[0])
    if "match_results" in params:
        r = rxof(e, st, a[2])
        hook = getattr(e, "match_hook", None)
        if hook is not None:
            x = hook(e, st, a, s, r, whole)
            if x is not None:
                return x
        o = e.obj(st, a[1], "write")
        if s.lit() is None:                    # its captures are unknown: reading one is out of reach
            e.put(st, o, e.offset(st, a[1]), 32, engine.Mixed())
            return decide(e, st, s, search_lang(r, whole))
        m = concrete_match(s.lit(), r, whole)
        e.put(st, o, e.offset(st, a[1]), 32, m)
        return m.ok
    r = rxof(e, st, a[1])
    if s.lit() is not None:
        return concrete_match(s.lit(), r, whole).ok
    return decide(e, st, s, search_lang(r, whole))


@h("std::regex_replace")
def regex_replace(e, st, a, name, params):
    if not params.startswith("(string const&, std::basic_regex") or "char const*" not in params:
        raise Unsupported("regex_replace %s" % params[:60])
    s = gets(e, st, a[1])
    r = rxof(e, st, a[2])
    f = known(cstr(e, st, a[3]))
    if s.lit() is None and strs.words(st.ctx, s) is None:
        sets(e, st, a[0], replaced(st, s, r, f))
        return None
    w = concrete(e, st, s)

    def sub_(m):
        return re.sub(r"\$(\d)", lambda k: m.group(int(k.group(1))) or "" if int(k.group(1)) <= r.groups() else "", f)
    sets(e, st, a[0], lit(r.py().sub(sub_, w)))
    return None


def replaced(st, s, r, f):
    """what replacement makes of an unknown text: a text that IMAGE knows the origin of"""
    live = [x for x in s.p if x != ""]
    if len(live) != 1 or not isinstance(live[0], int):
        raise Unsupported("replacement in a text of several parts")
    return rewritten(st, live[0], rewriting(r, f), "with %s replaced" % r.pat)


def rewritten(st, x, how, what):
    key = ("replaced", x, how)
    y = _CUTS.get(key)
    if y is None:
        y = _CUTS[key] = vals.leaf("%s %s" % (vals.LEAVES[x][0], what), lang.ALL)
        IMAGE[y] = (x, how)
    return mk([y])


IMAGE = {}
vals.OTHERS += [_CUTS, CASED, IMAGE]
RUN = 6


def rewriting(r, f):
    """a replacement as what it does to each character, or to each run of one character"""
    n = r.ast()
    while n[0] in ("cat", "alt") and len(n[1]) == 1:
        n = n[1][0]
    if n[0] == "set" and "$" not in f:
        return ("chars", ((n[1], f),))
    L = lang.from_ast(rx.strip_groups(n))
    cs = {c for c in range(256) if not lang.inter(L, lang.from_ast(("cat", (ANYS, ("set", 1 << c), ANYS)))).empty()}
    if len(cs) != 1 or "" in L:
        raise Unsupported("replacement of %r" % r.pat)
    ch = chr(cs.pop())
    p = r.py()

    def sub_(m):
        return re.sub(r"\$(\d)", lambda k: m.group(int(k.group(1))) or "" if int(k.group(1)) <= r.groups() else "", f)
    if "\\b" in r.pat or "(?" in r.pat:
        raise Unsupported("replacement of %r" % r.pat)
    other = "!" if ch != "!" else "#"
    out = {}
    for a in (False, True):
        for b in (False, True):
            for k in range(1, RUN + 4):
                w = p.sub(sub_, ("" if a else other) + ch * k + ("" if b else other))
                w = w[0 if a else 1:len(w) if b else len(w) - 1]
                if k <= RUN:
                    out[a, b, k] = w
                elif w != out[a, b, RUN]:
                    raise Unsupported("replacement of %r" % r.pat)
    return ("runs", ch, tuple(sorted(out.items())))


def origin(ctx, y):
    """(text an unknown text was made from, what is known of it)"""
    L = ctx.lang(y)
    while True:
        if y in IMAGE:
            y, how = IMAGE[y]
            L = lang.preimage(L, how)
        elif y in CASED:
            y, up = CASED[y]
            L = lang.uncased(L, up)
        else:
            return y, L
        L = lang.inter(L, ctx.lang(y))


def matchof(e, st, p):
    v = get(e, st, p, "match")
    if not isinstance(v, MatchVal):
        raise Unsupported("match %r" % (v,))
    return v


@h("std::match_results::match_results")
def match_ctor(e, st, a, name, params):
    o = e.obj(st, a[0], "write")
    if params.startswith("()"):
        v = MatchVal((), {}, 0, ok=False)
    elif params.startswith("(std::match_results"):
        v = matchof(e, st, a[1])
    else:
        raise Unsupported("match constructor")
    e.put(st, o, e.offset(st, a[0]), 32, v)
    return None


@h("std::match_results::operator=")
def match_assign(e, st, a, name, params):
    o = e.obj(st, a[0], "write")
    e.put(st, o, e.offset(st, a[0]), 32, matchof(e, st, a[1]))
    return a[0]


@h("std::match_results::empty")
def match_empty(e, st, a, name, params):
    return not matchof(e, st, a[0]).ok


@h("std::match_results::size")
def match_size(e, st, a, name, params):
    m = matchof(e, st, a[0])
    return m.n if m.ok else 0


@h("std::match_results::str")
def match_str(e, st, a, name, params):
    sets(e, st, a[0], matchof(e, st, a[1]).str(number(e, st, a[2])))
    return None


@h("std::match_results::length")
def match_length(e, st, a, name, params):
    return strs.length(st.ctx, matchof(e, st, a[0]).str(number(e, st, a[1])))


@h("std::match_results::position")
def match_position(e, st, a, name, params):
    return matchof(e, st, a[0]).position(st.ctx, number(e, st, a[1]))


def sub_obj(e, st, s, matched):
    o = st.new(24, "const", "sub_match")
    o.nat = SubVal(s, matched)
    o.cells[16] = (1, 1 if matched else 0)
    return o


@h("std::match_results::operator[]")
def match_index(e, st, a, name, params):
    m = matchof(e, st, a[0])
    k = number(e, st, a[1])
    return Ptr(sub_obj(e, st, m.str(k), m.matched(k)).id, 0)


@h("std::match_results::suffix", "std::match_results::prefix")
def match_suffix(e, st, a, name, params):
    m = matchof(e, st, a[0])
    b = m.g[0]
    s = mk(m.tx[b[1]:]) if "suffix" in name else mk(m.tx[:b[0]])
    return Ptr(sub_obj(e, st, s, True).id, 0)


def subof(e, st, p):
    o = e.obj(st, p)
    if not isinstance(o.nat, SubVal):
        raise Unsupported("sub_match of unknown origin")
    return o.nat


@h("std::sub_match::str", "std::sub_match::operator string")
def sub_str(e, st, a, name, params):
    sets(e, st, a[0], subof(e, st, a[1]).s)
    return None


@h("std::sub_match::length")
def sub_length(e, st, a, name, params):
    return strs.length(st.ctx, subof(e, st, a[0]).s)


@h("std::sub_match::compare")
def sub_compare(e, st, a, name, params):
    s = subof(e, st, a[0]).s
    t = cstr(e, st, a[1]) if params.startswith("(char const*") else gets(e, st, a[1])
    return 0 if same(e, st, s, t) else Cmp()


# ------------------------------------------------------------------------ streams
def stream(e, st, a, name, params):
    return a[0]


@h("std::operator<<", "std::ostream::operator<<")
def stream_out(e, st, a, name, params):
    if name.startswith(("_ZStls", "_ZNSols")):
        return a[0]
    return "skip"


# ------------------------------------------------------------------------ runtime
@h("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")
def memcpy(e, st, a, name, params):
    dst, src, n = a[0], a[1], number(e, st, a[2])
    if n == 0 or dst == src:
        return dst
    so = e.obj(st, src, "read")
    do = e.obj(st, dst, "write")
    sf, df = e.offset(st, src), e.offset(st, dst)
    e.bounds(st, so, sf, n, "read")
    e.bounds(st, do, df, n, "write")
    if do.kind in ("global", "const"):
        e.global_write(st, do, None)
    cells = [(f, c) for f, c in so.cells.items() if sf <= f < sf + n]
    for f, c in so.cells.items():
        if f < sf < f + c[0] or sf <= f < sf + n < f + c[0]:
            raise Unsupported("partial copy")
    do = st.w(do.id)
    for f in list(do.cells):
        c = do.cells[f]
        if f < df + n and f + c[0] > df:
            if f >= df and f + c[0] <= df + n:
                del do.cells[f]
            else:
                raise Unsupported("partial overwrite")
    if so.base is not None:
        for i in range(n):
            do.cells[df + i] = (1, so.base[sf + i])
        return dst
    if so.zero:
        covered = [False] * n
        for f, c in cells:
            for i in range(f - sf, f - sf + c[0]):
                covered[i] = True
        for i in range(n):
            if not covered[i]:
                do.cells[df + i] = (1, 0)
    for f, c in cells:
        do.cells[df + f - sf] = c
    return dst


@h("llvm.memset", "memset")
def memset(e, st, a, name, params):
    dst, v, n = a[0], number(e, st, a[1], 8), number(e, st, a[2])
    do = e.obj(st, dst, "write")
    df = e.offset(st, dst)
    e.bounds(st, do, df, n, "write")
    if do.kind in ("global", "const"):
        e.global_write(st, do, v)
    do = st.w(do.id)
    for f in list(do.cells):
        if df <= f < df + n:
            del do.cells[f]
    i = 0
    while i < n:
        k = 8 if n - i >= 8 and (df + i) % 8 == 0 else 1
        x = int.from_bytes(bytes([v & 255]) * k, "little", signed=True)
        do.cells[df + i] = (k, x)
        i += k
    return dst


@h("llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.dbg.declare", "llvm.dbg.value", "llvm.experimental.noalias.scope.decl", "llvm.stacksave", "llvm.stackrestore", "llvm.donothing")
def nothing(e, st, a, name, params):
    return NULL


@h("llvm.eh.typeid.for")
def typeid_for(e, st, a, name, params):
    o = st.heap[a[0].o]
    return e.typeid(o.name)


@h("llvm.floor.f64", "floor", "std::floor")
def floor_(e, st, a, name, params):
    return floor_of(a[0])


def floor_of(x):
    if isinstance(x, (int, Lin)):
        return x
    return x.numerator // x.denominator


@h("llvm.ceil.f64", "ceil", "std::ceil")
def ceil_(e, st, a, name, params):
    x = a[0]
    if isinstance(x, (int, Lin)):
        return x
    return -((-x.numerator) // x.denominator)


@h("llvm.trunc.f64", "trunc")
def trunc_(e, st, a, name, params):
    x = a[0]
    return x if isinstance(x, (int, Lin)) else int(x)


@h("llvm.abs.i32", "llvm.abs.i64", "std::abs", "abs", "labs")
def abs_(e, st, a, name, params):
    n = 64 if "i64" in name or "long" in params or name == "labs" else 32
    x = e.sn(st, a[0], n)
    if isinstance(x, int):
        return abs(x)
    if e.truth(st, vals.lt(x, 0)):
        return vals.scale(x, -1)
    return x


@h("llvm.trap", "abort", "std::terminate", "__clang_call_terminate")
def trap(e, st, a, name, params):
    e.fails.append(engine.Fail("terminates", "the program is aborted (%s)" % name, st.ctx.copy(), e.where(st)))
    raise engine.Dead()


@h("llvm.umul.with.overflow.i64", "llvm.umul.with.overflow")
def umul(e, st, a, name, params):
    x, y = number(e, st, a[0]), number(e, st, a[1])
    return [x * y, x * y >= 1 << 64]


@h("operator new", "operator new[]")
def op_new(e, st, a, name, params):
    n = number(e, st, a[0])
    return Ptr(st.new(n, "heap", "new").id, 0)


@h("operator delete", "operator delete[]")
def op_delete(e, st, a, name, params):
    if a[0].o == 0:
        return None
    o = e.obj(st, a[0], "delete")
    if o.kind != "heap" or a[0].f != 0:
        e.fails.append(engine.Fail("memory", "delete of something that was not allocated", st.ctx.copy(), e.where(st)))
        raise engine.Dead()
    st.w(o.id).alive = False
    return None


@h("__cxa_guard_acquire")
def guard_acquire(e, st, a, name, params):
    g = st.heap[a[0].o].name
    v = "guard:_Z" + g[4:]
    if st.glob.get(v) == "done":
        return 0
    st.glob[v] = "open"
    return 1


@h("__cxa_guard_release", "__cxa_guard_abort")
def guard_release(e, st, a, name, params):
    o = st.heap[a[0].o]
    st.glob["guard:_Z" + o.name[4:]] = "done" if "release" in name else ""
    if "release" in name:
        st.w(o.id).cells[0] = (1, 1)
    return None


@h("__cxa_atexit")
def atexit(e, st, a, name, params):
    return 0


@h("__cxa_allocate_exception")
def alloc_exc(e, st, a, name, params):
    return Ptr(st.new(number(e, st, a[0]), "heap", "exception").id, 0)


@h("__cxa_free_exception")
def free_exc(e, st, a, name, params):
    st.w(a[0].o).alive = False
    return None


@h("__cxa_throw")
def cxa_throw(e, st, a, name, params):
    ti = st.heap[a[1].o].name
    exc = engine.Exc(ti, "", a[0])
    st.w(a[0].o).nat = exc
    e.throw(st, exc)
    return DEFER


@h("__cxa_begin_catch")
def begin_catch(e, st, a, name, params):
    st.caught.append(st.heap[a[0].o].nat)
    return a[0]


@h("__cxa_end_catch")
def end_catch(e, st, a, name, params):
    if st.caught:
        st.caught.pop()
    return None


@h("__cxa_rethrow")
def rethrow(e, st, a, name, params):
    exc = st.caught.pop()
    e.throw(st, exc)
    return DEFER


@h("native:what")
def what(e, st, a, name, params):
    o = st.new(1 << 30, "const", "what")
    o.base = b"error\0"
    return Ptr(o.id, 0)


@h("std::out_of_range::out_of_range", "std::invalid_argument::invalid_argument", "std::logic_error::logic_error",
   "std::runtime_error::runtime_error", "std::range_error::range_error", "std::length_error::length_error", "std::domain_error::domain_error")
def exc_ctor(e, st, a, name, params):
    o = st.w(a[0].o)
    o.cells[a[0].f] = (8, e.excvt(st))
    return None


@h("std::exception::~exception", "std::out_of_range::~out_of_range", "std::invalid_argument::~invalid_argument", "std::logic_error::~logic_error",
   "std::runtime_error::~runtime_error", "native:excdtor", "std::ios_base::Init::Init", "std::ios_base::Init::~Init",
   "std::length_error::~length_error", "std::domain_error::~domain_error", "std::range_error::~range_error")
def exc_dtor(e, st, a, name, params):
    return None


@h("std::logic_error::what", "std::runtime_error::what", "std::exception::what")
def exc_what(e, st, a, name, params):
    return what(e, st, a, name, params)


@h("std::__throw_out_of_range_fmt", "std::__throw_out_of_range")
def throw_oor(e, st, a, name, params):
    raise Throw(OOR)


@h("std::__throw_length_error")
def throw_len(e, st, a, name, params):
    raise Throw("_ZTISt12length_error")


@h("std::__throw_invalid_argument")
def throw_inv(e, st, a, name, params):
    raise Throw(INVARG)


@h("std::__throw_logic_error")
def throw_logic(e, st, a, name, params):
    raise Throw(LOGIC)


@h("boost::throw_exception")
def boost_throw(e, st, a, name, params):
    m = re.match(r"_ZN5boost15throw_exceptionI(.*)EEvRKT_", name)
    t = m.group(1)
    if t.startswith("NS_"):
        t = "N5boost" + t[3:]            # S_ abbreviates boost here
    if t.startswith("N") and not t.endswith("E"):
        t += "E"
    raise Throw("_ZTI" + t)


@h("std::__detail::_List_node_base::_M_hook")
def list_hook(e, st, a, name, params):
    node, pos = a[0], a[1]
    prev = e.load(st, Ptr(pos.o, vals.add(pos.f, 8)), ir.PTR)
    e.store(st, node, ir.PTR, pos)
    e.store(st, Ptr(node.o, vals.add(node.f, 8)), ir.PTR, prev)
    e.store(st, prev, ir.PTR, node)
    e.store(st, Ptr(pos.o, vals.add(pos.f, 8)), ir.PTR, node)
    return None


# ------------------------------------------------------------------------ calendar
CALB = "boost::date_time::gregorian_calendar_base::"


def u16(e, st, p, off):
    return e.load(st, Ptr(p.o, vals.add(p.f, off)), ("i", 16))


def inside(e, st, n):
    """is a day number inside the calendar"""
    lo, hi = spec.CAL.MIN, spec.CAL.MAX
    return e.truth(st, vals.conj(vals.le(lo, n), vals.le(n, hi)))


def ymd(e, st, n):
    def dec(c):
        return st.ctx.decide(c) if isinstance(c, B) else c
    return vals.cal_ymd(n, dec)


@h(CALB + "from_day_number")
def from_day_number(e, st, a, name, params):
    n = e.sn(st, a[0], 32)
    if not inside(e, st, n):
        # beyond this the year would no longer fit its 16 bits
        e.oblige(st, vals.conj(vals.le(0, n), vals.le(n, 23936000)), "calendar", "a day number outside what the calendar can convert")
        raise Throw(BAD_YEAR)
    y, m, d = ymd(e, st, n)
    return engine.Comb(6, ((0, 2, y), (2, 2, m), (4, 2, d)))


@h(CALB + "day_number")
def day_number(e, st, a, name, params):
    y, m, d = (e.un(st, u16(e, st, a[0], k), 16) for k in (0, 2, 4))
    return vals.cal_dn(y, m, d)


@h(CALB + "day_of_week")
def day_of_week(e, st, a, name, params):
    y, m, d = (e.un(st, u16(e, st, a[0], k), 16) for k in (0, 2, 4))
    return vals.divmod_(vals.add(vals.cal_dn(y, m, d), 1), 7)[1]


def arg16(e, st, x):
    """greg_year / greg_month by value"""
    if isinstance(x, Ptr):
        return e.un(st, e.load(st, x, ("i", 16)), 16)
    return e.un(st, x, 16)


@h(CALB + "end_of_month_day")
def end_of_month_day(e, st, a, name, params):
    y, m = arg16(e, st, a[0]), arg16(e, st, a[1])
    return vals.cal_eom(y, m)


@h(CALB + "is_leap_year")
def is_leap_year(e, st, a, name, params):
    y = arg16(e, st, a[0])
    return vals.eq(vals.cal_eom(y, 2), 29)


@h("boost::date_time::month_functor::get_offset", "boost::date_time::month_functor::get_neg_offset")
def month_offset(e, st, a, name, params):
    f = e.sn(st, e.load(st, a[0], ("i", 32)), 32)
    dn = e.un(st, e.load(st, a[1], ("i", 32)), 32)
    orig = e.load(st, Ptr(a[0].o, vals.add(a[0].f, 4)), ("i", 16))
    if not (isinstance(orig, int) and orig == 0):
        raise Unsupported("month iterator used twice")
    # the month count is narrowed to 16 bits
    e.oblige(st, vals.conj(vals.le(-32768, f), vals.le(f, 32767)), "calendar", "a month count that does not fit 16 bits")
    n = vals.scale(f, -1) if "get_neg_offset" in name else f
    if not inside(e, st, dn):
        raise Throw(BAD_YEAR)
    y, m, d = ymd(e, st, dn)
    t = vals.add(vals.add(vals.scale(y, 12), m), vals.add(n, -1))
    y2, m2 = vals.divmod_(t, 12)
    m2 = vals.add(m2, 1)
    if not e.truth(st, vals.conj(vals.le(1400, y2), vals.le(y2, 9999))):
        raise Throw(BAD_YEAR)
    last = vals.cal_eom(y2, m2)
    if e.truth(st, vals.eq(d, vals.cal_eom(y, m))) or e.truth(st, vals.lt(last, d)):
        d = last
    return vals.add(vals.cal_dn(y2, m2, d), vals.scale(dn, -1))


@h("boost::posix_time::to_simple_string")
def to_simple_string(e, st, a, name, params):
    if not params.startswith("(boost::posix_time::ptime)"):
        raise Unsupported("to_simple_string")
    p = a[1]
    t = e.load(st, p, ("i", 64)) if isinstance(p, Ptr) else e.sn(st, p, 64)
    t = e.sn(st, t, 64)
    if not e.truth(st, vals.conj(vals.le(spec.CAL.MIN * spec.DAY, t), vals.lt(t, (spec.CAL.MAX + 1) * spec.DAY))):
        raise Throw(BAD_YEAR)                # the calendar cannot write it
    sets(e, st, a[0], mk([("time", vals.lkey(t))]))
    return None


def short(d, raw):
    if raw.startswith("llvm."):
        return re.sub(r"(\.p0|\.i64|\.i32)+$", "", raw) if raw.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset", "llvm.lifetime", "llvm.eh.typeid", "llvm.umul")) else raw
    return None


def find(e, name):
    if name.startswith("llvm.") or name.startswith("native:"):
        n, params = short(name, name) or name, ""
        if n.startswith("llvm.memset"):
            n = "llvm.memset"
    else:
        d = e.m.demangle(name)
        n, params, _ = names.split(d)
        if n.startswith("std::allocator") or n.startswith("std::__new_allocator::~") or n.startswith("std::__new_allocator::__new_allocator"):
            return (lambda e, st, a, name: None) if "allocator::~" in n or n.endswith("::allocator") or n.endswith("__new_allocator") else None
    hs = HANDLERS.get(n)
    cut = e.cut.get(n)
    if isinstance(cut, tuple):                   # (of which calls, contract)
        cut = cut[1] if cut[0](name, params) else None
    if cut is not None:
        return lambda e, st, a, name: cut(e, st, a, name, params)
    if not hs:
        return None
    f = hs[0]
    if n in ("std::operator==", "std::operator!=", "std::operator<<", "std::operator+", "std::ostream::operator<<"):
        if f is string_eq and not re.match(r"\((string const&|char const\*), (string const&|char const\*)\)", params):
            return None
        if f is string_plus and not re.match(r"\((string|char)( const)?[&*]*, (string|char)( const)?[&*]*\)", params):
            return None
        if f is stream_out and not name.startswith(("_ZStls", "_ZNSols")):
            return None
    e.contracts.add(n)
    return lambda e, st, a, name: f(e, st, a, name, params)
