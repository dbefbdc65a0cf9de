"""Regular expressions of the ECMAScript grammar used by std::regex: parser,
canonical form, automata (inclusion / emptiness over bytes), sampling."""
import random

ALL = (1 << 256) - 1


def mask(chars):
    r = 0
    for c in chars:
        r |= 1 << (c if isinstance(c, int) else ord(c))
    return r


DIGIT = mask("0123456789")
SPACE = mask(" \t\n\v\f\r")
LOWER = mask("abcdefghijklmnopqrstuvwxyz")
UPPER = mask("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
WORD = DIGIT | LOWER | UPPER | mask("_")
NL = mask("\n\r")


def chars(m):
    return [chr(i) for i in range(256) if m >> i & 1]


def fold(m):
    """close a character set under ASCII case"""
    lo, up = m & LOWER, m & UPPER
    return m | (lo >> 32) | (up << 32)


class RxError(Exception):
    pass


class Parser:
    def __init__(self, s, icase):
        self.s, self.i, self.icase, self.n = s, 0, icase, 0

    def peek(self, k=0):
        return self.s[self.i + k] if self.i + k < len(self.s) else ""

    def set(self, m):
        return ("set", fold(m) if self.icase else m)

    def parse(self):
        r = self.alt()
        if self.i < len(self.s):
            raise RxError("unexpected %r at %d" % (self.peek(), self.i))
        return r

    def alt(self):
        xs = [self.cat()]
        while self.peek() == "|":
            self.i += 1
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ("alt", tuple(xs))

    def cat(self):
        xs = []
        while self.peek() and self.peek() not in "|)":
            xs.append(self.term())
        return ("cat", tuple(xs)) if len(xs) != 1 else xs[0]

    def term(self):
        a = self.atom()
        while self.peek() and self.peek() in "*+?{":
            c = self.peek()
            self.i += 1
            if c == "*":
                lo, hi = 0, None
            elif c == "+":
                lo, hi = 1, None
            elif c == "?":
                lo, hi = 0, 1
            else:
                j = self.s.index("}", self.i)
                body = self.s[self.i:j]
                self.i = j + 1
                if "," in body:
                    x, y = body.split(",")
                    lo, hi = int(x), int(y) if y else None
                else:
                    lo = hi = int(body)
            lazy = False
            if self.peek() == "?":
                lazy = True
                self.i += 1
            a = ("rep", a, lo, hi, lazy)
        return a

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == "(":
            if self.peek() == "?":
                k = self.peek(1)
                if k in ":=!":
                    self.i += 2
                    b = self.alt()
                    self.close()
                    return b if k == ":" else ("la", b, k == "!")
                raise RxError("group")
            self.n += 1
            n = self.n
            b = self.alt()
            self.close()
            return ("grp", n, b)
        if c == "[":
            return self.cls()
        if c == ".":
            return ("set", ALL & ~NL)
        if c == "^":
            return ("bol",)
        if c == "$":
            return ("eol",)
        if c == "\\":
            return self.esc(False)
        if c in "*+?{":
            raise RxError("nothing to repeat")
        return self.set(mask(c))

    def close(self):
        if self.peek() != ")":
            raise RxError("missing )")
        self.i += 1

    def esc(self, incls):
        c = self.peek()
        self.i += 1
        t = {"d": DIGIT, "s": SPACE, "w": WORD, "D": ALL & ~DIGIT, "S": ALL & ~SPACE, "W": ALL & ~WORD}
        if c in t:
            return ("set", t[c])
        if c == "b" and not incls:
            return ("wb",)
        if c == "B" and not incls:
            return ("nwb",)
        u = {"n": "\n", "t": "\t", "r": "\r", "v": "\v", "f": "\f", "0": "\0"}
        if c in u:
            return ("set", mask(u[c]))
        if not c or c.isalnum() and ord(c) < 128:
            raise RxError("escape \\" + c)
        return self.set(mask(c))

    def cls(self):
        neg = False
        if self.peek() == "^":
            neg = True
            self.i += 1
        m = 0
        first = True
        while True:
            c = self.peek()
            if not c:
                raise RxError("missing ]")
            self.i += 1
            if c == "]" and not first:
                break
            first = False
            if c == "[" and self.peek() in (":", ".", "="):
                raise RxError("bracket class")
            if c == "\\":
                x = self.esc(True)[1]
                m |= x
                continue
            if self.peek() == "-" and self.peek(1) not in ("]", ""):
                self.i += 1
                d = self.peek()
                self.i += 1
                if d == "\\":
                    raise RxError("range")
                m |= mask(range(ord(c), ord(d) + 1))
            else:
                m |= mask(c)
        if self.icase:
            m = fold(m)
        if neg:
            m = ALL & ~m
        return ("set", m)


def parse(s, icase=False):
    p = Parser(s, icase)
    r = p.parse()
    return r, p.n


# ---------------------------------------------------------------- canonical form
def canon(n):
    """Flatten, keeping priorities: equal canonical forms match identically."""
    t = n[0]
    if t == "cat":
        xs = []
        for x in n[1]:
            x = canon(x)
            if x[0] == "cat":
                xs.extend(x[1])
            else:
                xs.append(x)
        return xs[0] if len(xs) == 1 else ("cat", tuple(xs))
    if t == "alt":
        xs = []
        for x in n[1]:
            x = canon(x)
            if x[0] == "alt":
                xs.extend(x[1])
            else:
                xs.append(x)
        out = []
        for x in xs:                      # a later copy of an alternative never matters
            if x not in out:
                out.append(x)
        return out[0] if len(out) == 1 else ("alt", tuple(out))
    if t == "rep":
        b = canon(n[1])
        if n[2] == 1 and n[3] == 1:
            return b
        return ("rep", b, n[2], n[3], n[4])
    if t == "grp":
        return ("grp", n[1], canon(n[2]))
    if t == "la":
        return ("la", canon(n[1]), n[2])
    return n


def strip_groups(n):
    t = n[0]
    if t == "cat":
        return ("cat", tuple(strip_groups(x) for x in n[1]))
    if t == "alt":
        return ("alt", tuple(strip_groups(x) for x in n[1]))
    if t == "rep":
        return ("rep", strip_groups(n[1]), n[2], n[3], n[4])
    if t == "grp":
        return strip_groups(n[2])
    if t == "la":
        return ("la", strip_groups(n[1]), n[2])
    return n


def has_assert(n):
    t = n[0]
    if t in ("bol", "eol", "wb", "nwb", "la"):
        return True
    if t in ("cat", "alt"):
        return any(has_assert(x) for x in n[1])
    if t == "rep":
        return has_assert(n[1])
    if t == "grp":
        return has_assert(n[2])
    return False


def find_group(n, g):
    t = n[0]
    if t == "grp":
        if n[1] == g:
            return n[2]
        return find_group(n[2], g)
    if t in ("cat", "alt"):
        for x in n[1]:
            r = find_group(x, g)
            if r is not None:
                return r
    if t in ("rep", "la"):
        return find_group(n[1], g)
    return None


def minlen(n):
    t = n[0]
    if t == "set":
        return 1
    if t == "cat":
        return sum(minlen(x) for x in n[1])
    if t == "alt":
        return min(minlen(x) for x in n[1])
    if t == "rep":
        return n[2] * minlen(n[1])
    if t == "grp":
        return minlen(n[2])
    return 0


# ---------------------------------------------------------------- automata
class NFA:
    """Thompson automaton of an expression without assertions other than those
    listed in `assertions` handling (wb/bol/eol/lookahead are treated as empty,
    which over-approximates)."""

    def __init__(self, n, marks=None):
        self.eps, self.tr = [], []
        self.start = self.new()
        self.end = self.build(n, self.start)

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, n, s):
        t = n[0]
        if t == "set":
            e = self.new()
            self.tr[s].append((n[1], e))
            return e
        if t == "cat":
            for x in n[1]:
                s = self.build(x, s)
            return s
        if t == "alt":
            e = self.new()
            for x in n[1]:
                a = self.new()
                self.eps[s].append(a)
                self.eps[self.build(x, a)].append(e)
            return e
        if t == "grp":
            return self.build(n[2], s)
        if t == "rep":
            _, b, lo, hi, _ = n
            for _ in range(lo):
                s = self.build(b, s)
            if hi is None:
                a = self.new()
                self.eps[s].append(a)
                z = self.build(b, a)
                self.eps[z].append(a)
                e = self.new()
                self.eps[a].append(e)
                return e
            e = self.new()
            self.eps[s].append(e)
            for _ in range(hi - lo):
                s = self.build(b, s)
                self.eps[s].append(e)
            return e
        return s                           # assertions

    def close(self, ss):
        out, st = set(ss), list(ss)
        while st:
            for y in self.eps[st.pop()]:
                if y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)

    def init(self):
        return self.close([self.start])

    def final(self, ss):
        return self.end in ss

    def classes(self, ss):
        return {m for s in ss for m, _ in self.tr[s]}

    def step(self, ss, c):
        return self.close([t for s in ss for m, t in self.tr[s] if m >> c & 1])


def atoms(masks):
    """Partition of the bytes by a set of character sets: one representative each."""
    seen = {}
    ms = list(masks)
    for c in range(256):
        k = tuple(m >> c & 1 for m in ms)
        if any(k) and k not in seen:
            seen[k] = c
    return list(seen.values())


PREFER = {c: i for i, c in enumerate(b"abcdefghijklmnopqrstuvwxyz 0123456789")}


def _rep(masks):
    seen = {}
    ms = list(masks)
    for c in sorted(range(256), key=lambda c: PREFER.get(c, 99)):
        k = tuple(m >> c & 1 for m in ms)
        if any(k) and k not in seen:
            seen[k] = c
    return list(seen.values())


def explore(a, b, bad, limit=200000):
    """Breadth first search of the product of two NFAs (determinised on the fly);
    shortest string reaching a pair with bad(fa, fb), or None."""
    s0 = (a.init(), b.init())
    seen = {s0: None}
    q = [s0]
    i = 0
    while i < len(q):
        x = q[i]
        i += 1
        if bad(a.final(x[0]), b.final(x[1])):
            w = []
            k = x
            while seen[k] is not None:
                k, c = seen[k]
                w.append(chr(c))
            return "".join(reversed(w))
        for c in _rep(a.classes(x[0]) | b.classes(x[1])):
            y = (a.step(x[0], c), b.step(x[1], c))
            if y not in seen:
                seen[y] = (x, c)
                q.append(y)
                if len(seen) > limit:
                    raise RxError("automaton too large")
    return None


def included(n1, n2):
    """None when L(n1) is inside L(n2), else a witness."""
    return explore(NFA(n1), NFA(n2), lambda x, y: x and not y)


def disjoint(n1, n2):
    """None when the languages share no string, else a witness."""
    return explore(NFA(n1), NFA(n2), lambda x, y: x and y)


def anyany(n):
    """.*n.* over all bytes"""
    a = ("rep", ("set", ALL), 0, None, False)
    return ("cat", (a, n, a))


# ---------------------------------------------------------------- sampling
def sample(n, rnd, digits=None, pick=None):
    """A random string of the expression (assertions ignored)."""
    t = n[0]
    if t == "set":
        m = n[1]
        if m & LOWER and m & UPPER and not (m & ~(fold(m & LOWER) | 0)):
            m &= LOWER
        cs = chars(m)
        if m & SPACE and not m & ~SPACE:
            return rnd.choice([" ", " ", " ", "\t", "\n"])
        good = [c for c in cs if c in " .,-/'_" or c.isalnum() and ord(c) < 128] or cs
        return rnd.choice(good)
    if t == "cat":
        return "".join(sample(x, rnd, digits) for x in n[1])
    if t == "alt":
        return sample(rnd.choice(n[1]), rnd, digits)
    if t == "grp":
        return sample(n[2], rnd, digits)
    if t == "rep":
        _, b, lo, hi, _ = n
        if b == ("set", DIGIT) and digits:
            ok = [d for d in digits if lo <= len(d) <= (hi if hi is not None else 99)]
            if ok and rnd.random() < 0.5:
                return rnd.choice(ok)
        top = hi if hi is not None else lo + (2 if b[0] != "set" or b[1] != DIGIT else 4)
        k = rnd.randint(lo, top)
        return "".join(sample(b, rnd, digits) for _ in range(k))
    return ""


def to_python(s):
    """Text of the same expression for Python's re (flags ASCII|IGNORECASE, latin-1 text)."""
    return s.replace("$", r"\Z")
