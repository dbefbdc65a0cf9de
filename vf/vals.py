"""Symbolic values: linear integer terms over atoms, conditions, and the
decision procedure (intervals first, then z3)."""
import z3

import lang
import spec

INF = float("inf")


class Unsupported(Exception):
    """The verifier cannot follow this code: nothing is concluded from it."""


class ForkOn(Exception):
    def __init__(self, cond):
        self.cond = cond


class Atom:
    __slots__ = ("i", "kind", "key", "lo", "hi", "z", "defs", "deps", "extra")

    def __init__(self, i, kind, key, lo, hi):
        self.i, self.kind, self.key, self.lo, self.hi = i, kind, key, lo, hi
        self.z = None
        self.defs = None
        self.deps = None
        self.extra = None


ATOMS = []
_CONS = {}


def atom(kind, key, lo, hi):
    a = _CONS.get((kind, key))
    if a is None:
        a = Atom(len(ATOMS), kind, key, lo, hi)
        ATOMS.append(a)
        _CONS[(kind, key)] = a
    return a


def reset():
    ATOMS.clear()
    _CONS.clear()
    STAT.clear()
    LEAVES.clear()
    _WORDS.clear()
    _CONG.clear()
    for d in OTHERS:
        d.clear()


OTHERS = []                      # what other modules keep per task
STAT = {}


def stat(k, n=1):
    STAT[k] = STAT.get(k, 0) + n


class Lin:
    """c + sum coef*atom; at least one atom (otherwise a Python int is used)."""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t):
        self.c, self.t = c, t
        self._h = None

    def key(self):
        return (self.c, self.t)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def same(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        return "+".join([str(self.c)] * (self.c != 0) + ["%s%s" % ("" if k == 1 else "%d*" % k, aname(a)) for a, k in self.t])

    # arithmetic
    def __add__(self, o):
        return add(self, o)
    __radd__ = __add__

    def __neg__(self):
        return scale(self, -1)

    def __sub__(self, o):
        return add(self, scale(o, -1))

    def __rsub__(self, o):
        return add(o, scale(self, -1))

    def __mul__(self, o):
        if isinstance(o, int):
            return scale(self, o)
        raise Unsupported("product of two unknowns")
    __rmul__ = __mul__

    def __floordiv__(self, k):
        return divmod_(self, k)[0]

    def __mod__(self, k):
        return divmod_(self, k)[1]

    # comparison
    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __ge__(self, o):
        return le(o, self)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    def __bool__(self):
        return bool(neg(eq(self, 0)))

    def __index__(self):
        raise Unsupported("unknown used as a concrete number")


def aname(i):
    a = ATOMS[i]
    if a.kind == "var":
        return str(a.key)
    if a.kind in ("q", "r"):
        return "%s%d(%r)" % ("div" if a.kind == "q" else "mod", a.key[1], Lin(*a.key[0]))
    if a.kind in ("Y", "M", "D"):
        return "%s(%r)" % (a.kind, unkey(a.key))
    if a.kind in ("DN1", "EOM"):
        return "%s(%r,%r)" % (a.kind, unkey(a.key[0]), unkey(a.key[1]))
    return "%s%d" % (a.kind, i)


def lkey(x):
    return x.key() if isinstance(x, Lin) else x


def unkey(k):
    return Lin(*k) if isinstance(k, tuple) else k


def mk(c, d):
    t = tuple(sorted((a, k) for a, k in d.items() if k))
    return Lin(c, t) if t else c


def var(name, lo=-INF, hi=INF):
    a = atom("var", name, lo, hi)
    return Lin(0, ((a.i, 1),))


def of(a):
    return Lin(0, ((a.i, 1),))


def add(x, y):
    if isinstance(x, int):
        if isinstance(y, int):
            return x + y
        return Lin(x + y.c, y.t) if x else y
    if isinstance(y, int):
        return Lin(x.c + y, x.t) if y else x
    d = dict(x.t)
    for a, k in y.t:
        d[a] = d.get(a, 0) + k
    return mk(x.c + y.c, d)


def scale(x, k):
    if isinstance(x, int):
        return x * k
    if k == 0:
        return 0
    if k == 1:
        return x
    return Lin(x.c * k, tuple((a, c * k) for a, c in x.t))


def interval(x, bounds=None):
    if isinstance(x, int):
        return x, x
    lo = hi = x.c
    for a, k in x.t:
        al, ah = (bounds.get(a) if bounds else None) or (ATOMS[a].lo, ATOMS[a].hi)
        if k > 0:
            lo += k * al
            hi += k * ah
        else:
            lo += k * ah
            hi += k * al
    return lo, hi


def divmod_(x, k):
    """floor division by a positive constant"""
    if not isinstance(k, int) or k <= 0:
        raise Unsupported("division by %r" % (k,))
    if isinstance(x, int):
        return x // k, x % k
    q = {}
    rest = {}
    for a, c in x.t:
        n = c // k
        m = c - n * k
        if n:
            q[a] = n
        if m:
            rest[a] = m
    qc, rc = divmod(x.c, k)
    r = mk(rc, rest)
    quo = mk(qc, q)
    if isinstance(r, int):
        return quo, r
    lo, hi = interval(r)
    if lo > -INF and hi < INF:
        n = lo // k
        if hi // k == n:
            return add(quo, n), add(r, -n * k)
        qlo, qhi = n, hi // k
    else:
        qlo, qhi = (lo // k if lo > -INF else -INF), (hi // k if hi < INF else INF)
    # reduce by a common factor: (g*s + c) div (g*m) = s div m
    a = atom("q", (r.key(), k), qlo, qhi)
    b = atom("r", (r.key(), k), 0, k - 1)
    if a.deps is None:
        a.deps = [i for i, _ in r.t] + [b.i]
        b.deps = [i for i, _ in r.t] + [a.i]
    return add(quo, of(a)), of(b)


# ---------------------------------------------------------------- conditions
class B:
    """('le', Lin): Lin <= 0   ('eq', Lin): Lin == 0   ('not', B)   ('and'|'or', (B,...))
    ('in', leaf, Lang): the unknown text `leaf` belongs to the language   ('bool', name): a free condition"""
    __slots__ = ("op", "x", "_h", "_at")
    current = None                     # decides conditions met by specification code

    def __init__(self, op, *x):
        self.op, self.x = op, x
        self._h = self._at = None

    def key(self):
        return (self.op,) + tuple(y.key() if isinstance(y, (Lin, B)) else
                                  tuple(z.key() for z in y) if isinstance(y, tuple) and y and isinstance(y[0], B) else y for y in self.x)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, B) and self.key() == o.key()

    def __repr__(self):
        return "%s%r" % (self.op, self.x)

    def __bool__(self):
        if B.current is None:
            raise Unsupported("undecided condition outside a specification: %r" % (self,))
        return B.current(self)


def norm(x):
    """divide by the gcd for a canonical comparison"""
    from math import gcd
    g = 0
    for _, k in x.t:
        g = gcd(g, abs(k))
    return g


def le(x, y):
    d = add(x, scale(y, -1))
    if isinstance(d, int):
        return d <= 0
    g = norm(d)
    if g > 1:
        d = Lin(-((-d.c) // g), tuple((a, k // g) for a, k in d.t))
    lo, hi = interval(d)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    return B("le", d)


def lt(x, y):
    return le(add(x, 1), y)


def eq(x, y):
    if not isinstance(y, (int, Lin)) or isinstance(y, bool):
        if y is None:
            return False
        y = int(y)
    d = add(x, scale(y, -1))
    if isinstance(d, int):
        return d == 0
    g = norm(d)
    if d.c % g:
        return False
    if g > 1:
        d = Lin(d.c // g, tuple((a, k // g) for a, k in d.t))
    if d.t[0][1] < 0:
        d = scale(d, -1)
    lo, hi = interval(d)
    if lo > 0 or hi < 0:
        return False
    return B("eq", d)


def neg(b):
    if isinstance(b, bool):
        return not b
    if b.op == "not":
        return b.x[0]
    if b.op == "le":                     # not (d <= 0)  <=>  1 - d <= 0
        return B("le", add(1, scale(b.x[0], -1)))
    return B("not", b)


def conj(*bs):
    out = []
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        out.append(b)
    return True if not out else out[0] if len(out) == 1 else B("and", tuple(out))


def disj(*bs):
    out = []
    for b in bs:
        if b is False:
            continue
        if b is True:
            return True
        out.append(b)
    return False if not out else out[0] if len(out) == 1 else B("or", tuple(out))


LEAVES = []                             # unknown texts: (name, language)
_WORDS = {}


def leaf(name, lang):
    LEAVES.append((name, lang))
    return len(LEAVES) - 1


def wordno(w):
    return _WORDS.setdefault(w, len(_WORDS))


def zchoice(i):
    return z3.Int("ch_%s" % (i,))


def zin(i, lang):
    ws = lang.words()
    if ws is None:
        return z3.Bool("in_%d_%d" % (i, lang.id))
    return z3.Or([zchoice(i) == wordno(w) for w in ws])


def zatom(i):
    a = ATOMS[i]
    if a.z is None:
        a.z = z3.Int("a%d" % i)
    return a.z


def zlin(x):
    if isinstance(x, int):
        return z3.IntVal(x)
    return z3.Sum([z3.IntVal(x.c)] + [zatom(a) * k if k != 1 else zatom(a) for a, k in x.t])


def zb(b):
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if b.op == "le":
        return zlin(b.x[0]) <= 0
    if b.op == "eq":
        return zlin(b.x[0]) == 0
    if b.op == "not":
        return z3.Not(zb(b.x[0]))
    if b.op == "and":
        return z3.And([zb(y) for y in b.x[0]])
    if b.op == "or":
        return z3.Or([zb(y) for y in b.x[0]])
    if b.op == "in":
        return zin(*b.x)
    if b.op == "bool":
        return z3.Bool("b_%s" % (b.x[0],))
    raise Unsupported("condition %s" % b.op)


def atoms_of(b, out):
    if isinstance(b, bool):
        return
    for y in b.x:
        if isinstance(y, Lin):
            out.update(a for a, _ in y.t)
        elif isinstance(y, B):
            atoms_of(y, out)
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, B):
                    atoms_of(z, out)


def choices_of(b, out):
    if isinstance(b, bool):
        return
    if b.op == "in":
        out.add(b.x[0])
    elif b.op == "bool":
        out.add(("bool", b.x[0]))
    for y in b.x:
        if isinstance(y, B):
            choices_of(y, out)
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, B):
                    choices_of(z, out)


def parts(b):
    """(atoms, texts) of a condition"""
    if b._at is None:
        s, c = set(), set()
        atoms_of(b, s)
        choices_of(b, c)
        todo = list(s)
        while todo:
            for d in deps(todo.pop()):
                if d not in s:
                    s.add(d)
                    todo.append(d)
        b._at = (s, c)
    return b._at


def deps(i):
    a = ATOMS[i]
    if a.deps is None:
        a.deps = []
        k = a.kind
        if k in ("Y", "M", "D"):
            n = unkey(a.key)
            ks = [x for x, _ in n.t] if isinstance(n, Lin) else []
            y, m, d = (atom(z, a.key, lo, hi).i for z, lo, hi in (("Y", 1400, 9999), ("M", 1, 12), ("D", 1, 31)))
            e = cal_eom(of(ATOMS[y]), of(ATOMS[m]))
            a.deps = [y, m, d] + [x for x, _ in e.t] + ks
        elif k in ("q", "r"):
            (n, d) = a.key
            a.deps = [x for x, _ in Lin(*n).t]
            a.deps.append(atom("r", a.key, 0, d - 1).i if k == "q" else _CONS[("q", a.key)].i)
        elif k in ("DN1", "EOM"):
            for z in a.key:
                z = unkey(z)
                if isinstance(z, Lin):
                    a.deps += [x for x, _ in z.t]
        elif k == "ite":
            s = set()
            atoms_of(a.key[0], s)
            for z in a.key[1:]:
                z = unkey(z)
                if isinstance(z, Lin):
                    s.update(x for x, _ in z.t)
            a.deps = list(s)
    return a.deps


def zdefs(i):
    """facts that hold of an atom by definition"""
    a = ATOMS[i]
    if a.defs is not None:
        return a.defs
    z = zatom(i)
    out = []
    if a.lo > -INF:
        out.append(z >= int(a.lo))
    if a.hi < INF:
        out.append(z <= int(a.hi))
    k = a.kind
    if k == "q":
        (key, d) = a.key
        b = atom("r", a.key, 0, d - 1)
        out.append(zlin(Lin(*key)) == z * d + zatom(b.i))
    elif k == "r":
        (key, d) = a.key
        b = _CONS[("q", a.key)]
        out.append(zlin(Lin(*key)) == zatom(b.i) * d + z)
    elif k == "Y":
        y, m, d = (zatom(atom(z, a.key, lo, hi).i) for z, lo, hi in (("Y", 1400, 9999), ("M", 1, 12), ("D", 1, 31)))
        n = zlin(unkey(a.key))
        p = y - 1
        leapz = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
        cum = z3.IntVal(0)
        for j in range(12, 1, -1):
            cum = z3.If(m == j, spec.CUM[j - 1], cum)
        a.extra = [n == 1721425 + 365 * p + p / 4 - p / 100 + p / 400 + cum + z3.If(z3.And(m > 2, leapz), 1, 0) + d]
    elif k == "D":
        y, m = of(atom("Y", a.key, 1400, 9999)), of(atom("M", a.key, 1, 12))
        out.append(z <= zlin(cal_eom(y, m)))
    elif k == "EOM":
        m = zlin(unkey(a.key[1]))
        out.append(z3.If(m == 2, z3.And(z >= 28, z <= 29),
                         z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z == 30, z == 31)))
    elif k == "tab":
        leaf, pairs = a.key
        c = zchoice(leaf)
        out.append(z3.Or([z3.And(c == wordno(w), z == v) for w, v in pairs]))
    elif k == "ite":
        c, x, y = a.key
        out.append(z == z3.If(zb(c), zlin(unkey(x)), zlin(unkey(y))))
    elif k == "DN1":
        y, m = unkey(a.key[0]), unkey(a.key[1])
        # the first of a month of year y lies within that year
        zy = zlin(y)
        p = zy - 1
        jan1 = 1721426 + 365 * p + p / 4 - p / 100 + p / 400
        if isinstance(m, int):
            base = jan1 + spec.CUM[m - 1]
            if m > 2:
                leapz = z3.And(zy % 4 == 0, z3.Or(zy % 100 != 0, zy % 400 == 0))
                base = base + z3.If(leapz, 1, 0)
            a.extra = [z == base]
        else:
            zm = zlin(m)
            cum = z3.IntVal(0)
            for j in range(12, 1, -1):
                cum = z3.If(zm == j, spec.CUM[j - 1], cum)
            leapz = z3.And(zy % 4 == 0, z3.Or(zy % 100 != 0, zy % 400 == 0))
            a.extra = [z == jan1 + cum + z3.If(z3.And(zm > 2, leapz), 1, 0)]
        out.append(z >= 1721426 + 365 * p + 338)     # loose bounds: between year starts
        out.append(z <= 1721426 + 366 * p + 335)
    a.defs = out
    return out


_CONG = {}


def congruence(a, b):
    r = _CONG.get((a.i, b.i))
    if r is None:
        if a.kind in ("Y", "M", "D"):
            same = zlin(unkey(a.key)) == zlin(unkey(b.key))
        else:
            same = z3.And(*[zlin(unkey(x)) == zlin(unkey(y)) for x, y in zip(a.key, b.key)])
        r = _CONG[(a.i, b.i)] = z3.Implies(same, zatom(a.i) == zatom(b.i))
    return r


# ---------------------------------------------------------------- calendar terms
def cal_eom(y, m):
    if isinstance(m, int):
        if m in (4, 6, 9, 11):
            return 30
        if m != 2:
            return 31
        if isinstance(y, int):
            return 29 if spec.leap(y) else 28
        return of(atom("EOM", (lkey(y), 2), 28, 29))
    return of(atom("EOM", (lkey(y), lkey(m)), 28, 31))


MAXLEN = (1 << 31) - 1              # assumed: texts are shorter than 2 GiB
DN_MIN, DN_MAX = spec.CAL.MIN, spec.CAL.MAX


def cal_dn(y, m, d):
    """day number of a valid date"""
    if isinstance(y, int) and isinstance(m, int):
        return add(spec.CAL.dn(y, m, 1), add(d, -1))
    # Y(n), M(n), D(n) is n
    ks = []
    for k, x in zip("YMD", (y, m, d)):
        if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1 and ATOMS[x.t[0][0]].kind == k:
            ks.append(ATOMS[x.t[0][0]].key)
    if len(ks) == 3 and ks[0] == ks[1] == ks[2]:
        return unkey(ks[0])
    (ylo, yhi), (mlo, mhi) = interval(y), interval(m)
    lo = spec.CAL.dn(min(max(int(ylo), 1400), 9999), min(max(int(mlo), 1), 12), 1) if ylo > -INF and mlo > -INF else DN_MIN
    hi = spec.CAL.dn(max(min(int(yhi), 9999), 1400), max(min(int(mhi), 12), 1), 1) if yhi < INF and mhi < INF else DN_MAX
    return add(of(atom("DN1", (lkey(y), lkey(m)), lo, hi)), add(d, -1))


def cal_ymd(n, decide=None):
    """year, month, day of a day number inside the calendar"""
    if isinstance(n, int):
        return spec.CAL.ymd(n)
    # n = DN1(y, m) + k with 0 <= k < eom(y, m)
    for a, k in n.t:
        A = ATOMS[a]
        if A.kind == "DN1" and k == 1:
            rest = add(n, scale(of(A), -1))
            y, m = unkey(A.key[0]), unkey(A.key[1])
            if decide is not None:
                if decide(le(0, rest)) is True and decide(lt(rest, cal_eom(y, m))) is True:
                    return y, m, add(rest, 1)
            elif isinstance(rest, int) and 0 <= rest < 28:
                return y, m, rest + 1
    k = n.key()
    return of(atom("Y", k, 1400, 9999)), of(atom("M", k, 1, 12)), of(atom("D", k, 1, 31))


# ---------------------------------------------------------------- deciding
class Ctx:
    """Path condition: conditions, refined bounds, languages of unknown texts."""
    __slots__ = ("pc", "bounds", "dom", "facts")

    def __init__(self):
        self.pc, self.bounds, self.dom, self.facts = [], {}, {}, {}

    def copy(self):
        c = Ctx()
        c.pc, c.bounds, c.dom, c.facts = list(self.pc), dict(self.bounds), dict(self.dom), dict(self.facts)
        return c

    def lang(self, i):
        d = self.dom.get(i)
        return LEAVES[i][1] if d is None else d

    def setlang(self, i, d):
        self.dom[i] = d
        for kind in ("len", "num"):
            a = _CONS.get((kind, i))
            if a is not None:
                self.textbounds(kind, i, a)

    def textbounds(self, kind, i, a):
        lo, hi = self.lang(i).lengths()
        if kind == "num":
            if hi < INF and lang.minus(self.lang(i), lang.SIGNED).empty():
                hi -= 1
            lo, hi = 0, (INF if hi == INF else 10 ** max(hi, 0) - 1)
        l, h = self.bounds.get(a.i) or (a.lo, a.hi)
        self.bounds[a.i] = (max(lo, l), min(hi, h))

    def textatom(self, kind, i):
        """length ('len') or value of the digits ('num') of an unknown text"""
        a = atom(kind, i, 0, INF if kind == "num" else MAXLEN)
        if a.i not in self.bounds:
            self.textbounds(kind, i, a)
        return of(a)

    def assume(self, b):
        """add a condition (assumed feasible)"""
        if isinstance(b, bool):
            return
        self.facts[b] = True
        n = neg(b)
        if isinstance(n, B):
            self.facts[n] = False
        if b.op == "and":
            for y in b.x[0]:
                self.assume(y)
            return
        if b.op == "in":
            self.setlang(b.x[0], lang.inter(self.lang(b.x[0]), b.x[1]))
            return
        if b.op == "not":
            c = b.x[0]
            if c.op == "in":
                self.setlang(c.x[0], lang.minus(self.lang(c.x[0]), c.x[1]))
                return
            if c.op == "or":
                for y in c.x[0]:
                    self.assume(neg(y))
                return
        self.pc.append(b)
        self.refine(b)

    def refine(self, b):
        if b.op in ("le", "eq") and len(b.x[0].t) == 1:
            (a, k), c = b.x[0].t[0], b.x[0].c
            lo, hi = self.bounds.get(a) or (ATOMS[a].lo, ATOMS[a].hi)
            if b.op == "eq":
                v = -c // k
                lo, hi = v, v
            elif k > 0:                   # k*a + c <= 0
                hi = min(hi, (-c) // k)
            else:
                lo = max(lo, _ceil(c, -k))
            self.bounds[a] = (lo, hi)

    def quick(self, b):
        if isinstance(b, bool):
            return b
        f = self.facts.get(b)
        if f is not None:
            return f
        if b.op in ("le", "eq"):
            lo, hi = interval(b.x[0], self.bounds)
            if b.op == "le":
                if hi <= 0:
                    return True
                if lo > 0:
                    return False
            else:
                if lo > 0 or hi < 0:
                    return False
                if lo == hi == 0:
                    return True
            return None
        if b.op == "not":
            r = self.quick(b.x[0])
            return None if r is None else not r
        if b.op == "and":
            rs = [self.quick(y) for y in b.x[0]]
            return False if False in rs else True if all(r is True for r in rs) else None
        if b.op == "or":
            rs = [self.quick(y) for y in b.x[0]]
            return True if True in rs else False if all(r is False for r in rs) else None
        if b.op == "in":
            d = self.lang(b.x[0])
            if lang.inter(d, b.x[1]).empty():
                return False
            if lang.minus(d, b.x[1]).empty():
                return True
        return None

    def formula(self, bs, hard=False):
        """z3 constraints: the conditions, the part of the path condition that
        shares atoms with them, and the definitions of all atoms involved"""
        seen, chs = set(), set()
        for b in bs:
            atoms_of(b, seen)
            choices_of(b, chs)
        todo = list(seen)
        out = [zb(b) for b in bs]
        used = [False] * len(self.pc)
        pcatoms = []
        for b in self.pc:
            pcatoms.append(parts(b))
        while True:
            while todo:
                i = todo.pop()
                for d in deps(i):
                    if d not in seen:
                        seen.add(d)
                        todo.append(d)
                if ATOMS[i].kind == "tab":
                    chs.add(ATOMS[i].key[0])
                if ATOMS[i].kind == "ite":
                    choices_of(ATOMS[i].key[0], chs)
            more = False
            for j, (s, c) in enumerate(pcatoms):
                if not used[j] and (s & seen or c & chs):
                    used[j] = True
                    out.append(zb(self.pc[j]))
                    more = True
                    for a in s - seen:
                        seen.add(a)
                        todo.append(a)
                    chs |= c
            if not more and not todo:
                break
        for i in seen:
            out.extend(zdefs(i))
            if i in self.bounds:
                lo, hi = self.bounds[i]
                if lo > ATOMS[i].lo:
                    out.append(zatom(i) >= int(lo))
                if hi < ATOMS[i].hi:
                    out.append(zatom(i) <= int(hi))
            if hard and ATOMS[i].extra:
                out.extend(ATOMS[i].extra)
        for c in chs:
            if not isinstance(c, tuple) and self.lang(c).words() is not None:
                out.append(zin(c, self.lang(c)))
        # equal days have equal years, months and days of the month
        groups = {}
        for i in seen:
            a = ATOMS[i]
            if a.kind in ("Y", "M", "D", "DN1", "EOM"):
                groups.setdefault(a.kind, []).append(a)
        for k, g in groups.items():
            for i, a in enumerate(g):
                for b in g[:i]:
                    out.append(congruence(a, b))
        if hard:
            # a day and the first day of its month
            for a in groups.get("DN1", ()):
                y, m = zlin(unkey(a.key[0])), zlin(unkey(a.key[1]))
                for b in groups.get("Y", ()):
                    mo, da = _CONS.get(("M", b.key)), _CONS.get(("D", b.key))
                    if mo is None or da is None:
                        continue
                    out.append(z3.Implies(z3.And(y == zatom(b.i), m == zatom(mo.i)),
                                          zatom(a.i) == zlin(unkey(b.key)) - zatom(da.i) + 1))
                    e = _CONS.get(("EOM", a.key))
                    last = zatom(e.i) if e is not None else z3.IntVal(28)
                    n = zlin(unkey(b.key))
                    out.append(z3.Implies(z3.And(zatom(a.i) <= n, n < zatom(a.i) + last),
                                          z3.And(zatom(b.i) == y, zatom(mo.i) == m, zatom(da.i) == n - zatom(a.i) + 1)))
        return out

    def check(self, bs, timeout=20000, hard=False):
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(self.formula(bs, hard))
        stat("queries")
        r = s.check()
        if r == z3.unknown:
            stat("unknown")
        return r, s

    def decide(self, b):
        """True / False / None (both possible)"""
        r = self.quick(b)
        if r is not None:
            return r
        if b.op == "bool" and not any(("bool", b.x[0]) in parts(p)[1] for p in self.pc):
            if not any(ATOMS[i].kind == "ite" for p in self.pc for i in parts(p)[0]):
                return None                  # nothing is known about it
        t, _ = self.check([b])
        if t == z3.unsat:
            self.facts[b] = False
            return False
        f, _ = self.check([neg(b)])
        if f == z3.unsat:
            self.facts[b] = True
            return True
        return None

    def valid(self, b):
        """proved / refuted / unknown"""
        r = self.quick(b)
        if r is True:
            return "proved", None
        if r is False:
            f, s = self.check([], hard=True)
            return "refuted", (s.model() if f == z3.sat else None)
        f, s = self.check([neg(b)])
        if f == z3.unsat:
            return "proved", None
        f2, s2 = self.check([neg(b)], hard=True)
        if f2 == z3.unsat:
            return "proved", None
        if f2 == z3.sat:
            return "refuted", s2.model()
        return ("unknown", None)

    def value(self, v):
        """a value the term can take on this path, or None"""
        if isinstance(v, int):
            return v
        x = z3.Int("value")
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(self.formula([B("le", Lin(-(1 << 200), v.t))]))
        s.add(x == zlin(v))
        if s.check() != z3.sat:
            return None
        return s.model()[x].as_long()

    def model(self):
        s = z3.Solver()
        s.set("timeout", 20000)
        c = self.formula(list(self.pc), True)
        s.add(c)
        if s.check() == z3.sat:
            return s.model()
        return None


def _ceil(c, k):
    """smallest a with -k*a + c <= 0, k > 0:  a >= c/k"""
    return -((-c) // k)


class SymCal:
    """The calendar on symbolic terms, with the interface of spec.Calendar."""
    MIN, MAX = DN_MIN, DN_MAX

    def eom(self, y, m):
        return cal_eom(y, m)

    def dn(self, y, m, d):
        return cal_dn(y, m, d)

    def ymd(self, n):
        if isinstance(n, int):
            return spec.CAL.ymd(n)
        if n < self.MIN or n > self.MAX:
            raise spec.NoResult("outside the calendar")
        return cal_ymd(n, SymCal.decide)
    decide = None


def ite(c, x, y):
    if c is True:
        return x
    if c is False:
        return y
    if lkey(x) == lkey(y):
        return x
    lx, hx = interval(x)
    ly, hy = interval(y)
    return of(atom("ite", (c, lkey(x), lkey(y)), min(lx, ly), max(hx, hy)))
