"""Texts that are partly unknown: sequences of literal pieces and unknown leaves.
Predicates on them are regular languages, decided on the leaves' languages."""
import lang
import vals
from vals import B, Unsupported, LEAVES


class Str:
    """p: pieces, each a str (literal), an int (leaf) or a tuple (opaque: rendered instant ...)."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "".join(x if isinstance(x, str) else "<%s>" % LEAVES[x][0] if isinstance(x, int) else repr(x) for x in self.p) or "''"

    def __eq__(self, o):
        return isinstance(o, Str) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def lit(self):
        """the text when it is known, else None"""
        if not self.p:
            return ""
        if len(self.p) == 1 and isinstance(self.p[0], str):
            return self.p[0]
        return None


def mk(pieces):
    out = []
    for x in pieces:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return Str(tuple(out))


EMPTY = Str(())


def lit(s):
    return Str((s,)) if s else EMPTY


def cat(*ss):
    return mk([x for s in ss for x in s.p])


def length(ctx, s):
    n = 0
    for x in s.p:
        if isinstance(x, str):
            n = vals.add(n, len(x))
        elif isinstance(x, int):
            n = vals.add(n, ctx.textatom("len", x))
        else:
            raise Unsupported("length of a rendered text")
    return n


def piece_lang(ctx, x):
    if isinstance(x, str):
        return lang.literal(x)
    if isinstance(x, int):
        return ctx.lang(x)
    raise Unsupported("content of a rendered text")


def member(ctx, s, L):
    """True / False, or a condition to decide first."""
    w = s.lit()
    if w is not None:
        return w in L
    ps = [x for x in s.p]
    # backwards: the outcomes possible from each state before piece i
    n = len(ps)
    ls = [piece_lang(ctx, x) for x in ps]
    memo = [dict() for _ in range(n + 1)]

    def outcomes(i, q):
        r = memo[i].get(q)
        if r is None:
            if i == n:
                r = frozenset([q in L.acc])
            else:
                r = set()
                for t in lang.reach_from(ls[i], L, q):
                    r |= outcomes(i + 1, t)
                r = frozenset(r)
            memo[i][q] = r
        return r
    r = outcomes(0, 0)
    if len(r) == 0:
        return False                     # no text at all: this path is infeasible
    if len(r) == 1:
        return True in r
    # undecided: split a leaf
    q = 0
    i = 0
    states = [0]
    while i < n:
        nxt = set()
        for q in states:
            nxt |= lang.reach_from(ls[i], L, q)
        if isinstance(ps[i], int):
            for q in states:
                ts = lang.reach_from(ls[i], L, q)
                prof = {}
                for t in ts:
                    prof.setdefault(outcomes(i + 1, t), set()).add(t)
                if len(prof) > 1:
                    # the smallest informative class first: decided outcomes before mixed ones
                    k = sorted(prof, key=lambda p: (len(p), False in p))[0]
                    c = B("in", ps[i], lang.into(L, q, frozenset(prof[k])))
                    if ctx.quick(c) is None:
                        return c
        states = sorted(nxt)
        i += 1
    # every leaf is decided by its class but the states still differ: split by single states
    states = [0]
    for i in range(n):
        for q in states:
            ts = lang.reach_from(ls[i], L, q)
            if len(ts) > 1 and isinstance(ps[i], int):
                c = B("in", ps[i], lang.into(L, q, frozenset([min(ts)])))
                if ctx.quick(c) is None:
                    return c
        states = sorted({t for q in states for t in lang.reach_from(ls[i], L, q)})
    raise Unsupported("undecidable membership of %r" % (s,))


def digits(ctx, s):
    """Value of a text: ('cond', B) to decide first, ('num', n), ('neg', n), ('none',) when it has no number"""
    w = s.lit()
    if w is not None:
        t = w.lstrip(" \t\n\v\f\r")
        sign = t[:1]
        u = t[1:] if sign in ("+", "-") else t
        k = 0
        while k < len(u) and u[k] in "0123456789":
            k += 1
        if k == 0:
            return ("none",)
        return ("neg" if sign == "-" else "num", int(u[:k]))
    if len(s.p) == 1:
        i = s.p[0]
        d = ctx.lang(i)
        for L, kind in ((lang.DIGITS, "num"), (PLUS, "num"), (MINUS, "neg"), (NONUM, "none")):
            c = ctx.quick(B("in", i, L))
            if c is None:
                return ("cond", B("in", i, L))
            if c:
                if kind == "none":
                    return ("none",)
                return (kind, ctx.textatom("num", i))
        return ("odd",)
    # several pieces: decide the kind of the whole, the value only when it is one leaf
    for L in (NONUM,):
        c = member(ctx, s, L)
        if isinstance(c, B):
            return ("cond", c)
        if c:
            return ("none",)
    # drop pieces that are certainly empty
    keep = [x for x in s.p if not (isinstance(x, int) and ctx.lang(x) is lang.EPS)]
    if len(keep) < len(s.p):
        return digits(ctx, mk(keep))
    # only the last piece can be a number when the others are blanks
    if all(isinstance(x, int) and lang.minus(ctx.lang(x), SPACES).empty() or isinstance(x, str) and not x.strip(" \t\n\v\f\r") for x in keep[:-1]):
        return digits(ctx, mk(keep[-1:]))
    return ("odd",)


def _lang(rx_):
    import rx
    return lang.from_ast(rx.parse(rx_)[0])


PLUS = _lang(r"\+[0-9]+")
MINUS = _lang(r"-[0-9]+")
SPACES = _lang(r"\s*")
NONUM = lang.compl(_lang(r"\s*[+-]?[0-9](.|\s|\n)*"))


def words(ctx, s, limit=400):
    """all texts it can be, as [(text, {leaf: word})], or None"""
    out = [("", ())]
    for x in s.p:
        if isinstance(x, str):
            out = [(w + x, m) for w, m in out]
        else:
            ws = piece_lang(ctx, x).words(limit)
            if ws is None or len(ws) * len(out) > limit:
                return None
            out = [(w + v, m + ((x, v),)) for w, m in out for v in ws]
    return out


def table(ctx, s, pairs):
    """The value of a lookup that is known to succeed; pairs: dict text -> int."""
    w = s.lit()
    if w is not None:
        return pairs[w]
    ws = words(ctx, s)
    if ws is None:
        raise Unsupported("lookup of an open text")
    live = [x for x in s.p if isinstance(x, int) and len(ctx.lang(x).words() or (0, 0)) > 1]
    vs = {pairs[w] for w, _ in ws}
    if len(vs) == 1:
        return vs.pop()
    if len(live) != 1:
        raise Unsupported("lookup of a text of several parts")
    i = live[0]
    key = (i, tuple(sorted({(dict(m)[i], pairs[w]) for w, m in ws})))
    v = [p for _, p in key[1]]
    return vals.of(vals.atom("tab", key, min(v), max(v)))
