"""Regular languages over bytes: minimal deterministic automata, interned."""
import rx

INF = float("inf")
_INTERN = {}
_CACHE = {}


class Lang:
    """trans[state][class]; state 0 is the start; complete (a sink is an ordinary state)."""
    __slots__ = ("id", "cls", "nc", "trans", "acc", "_len", "_words", "live", "_num")

    def __repr__(self):
        return "L%d" % self.id

    def step(self, q, c):
        return self.trans[q][self.cls[c]]

    def run(self, s, q=0):
        for ch in s:
            q = self.trans[q][self.cls[ord(ch)]]
        return q

    def __contains__(self, s):
        return self.run(s) in self.acc

    def empty(self):
        return not self.acc

    def lengths(self):
        """(shortest, longest) word length; (0, -1) when empty"""
        if self._len is None:
            if not self.acc:
                self._len = (0, -1)
            else:
                lo, cur, seen = 0, {0}, {0}
                while not (cur & self.acc):
                    cur = {t for q in cur for t in self.trans[q]} - seen
                    seen |= cur
                    lo += 1
                # longest: longest path over live reachable states, infinite with a cycle
                memo, stack = {}, set()

                def longest(q):
                    if q in memo:
                        return memo[q]
                    if q in stack:
                        return INF
                    stack.add(q)
                    best = 0 if q in self.acc else -1
                    for t in set(self.trans[q]):
                        if t in self.live:
                            best = max(best, longest(t) + 1)
                    stack.discard(q)
                    memo[q] = best
                    return best
                import sys
                sys.setrecursionlimit(max(10000, sys.getrecursionlimit()))
                self._len = (lo, longest(0))
        return self._len

    def words(self, limit=400):
        """All words when there are at most `limit`, else None."""
        if limit < 400:
            ws = self.words()
            return ws if ws is not None and len(ws) <= limit else None
        if self._words is None or self._words[0] is None and self._words[1] < limit:
            self._words = ()
            if self.lengths()[1] < INF:
                out, q = [], [(0, "")]
                rep = self.charsof()
                while q is not None and q:
                    nq = []
                    for s, w in q:
                        if s in self.acc:
                            out.append(w)
                        for k, t in enumerate(self.trans[s]):
                            if t in self.live:
                                for ch in rep[k]:
                                    nq.append((t, w + ch))
                    if len(out) > limit or len(nq) > 20 * limit:
                        out = None
                        break
                    q = nq
                self._words = (out, limit)
            else:
                self._words = (None, INF)
        return self._words[0]

    def charsof(self):
        out = [[] for _ in range(self.nc)]
        for c in range(256):
            out[self.cls[c]].append(chr(c))
        return out

    def shortest(self):
        return next(self.some(1), None)

    def some(self, n, prefer=rx.PREFER):
        """up to n short words, one representative byte per class"""
        rep = [min(cs, key=lambda ch: prefer.get(ord(ch), 999)) if cs else None for cs in self.charsof()]
        q, k, guard = [(0, "")], 0, 0
        while q and k < n and guard < 40:
            nq = []
            for s, w in q:
                if s in self.acc:
                    yield w
                    k += 1
                    if k >= n:
                        return
                for c, t in enumerate(self.trans[s]):
                    if t in self.live and rep[c] is not None:
                        nq.append((t, w + rep[c]))
            q = nq[:2000]
            guard += 1

    def random(self, rnd, long=0.3):
        """a random word"""
        cs = self.charsof()
        q, w = 0, ""
        for _ in range(60):
            outs = [(k, t) for k, t in enumerate(self.trans[q]) if t in self.live and cs[k]]
            if q in self.acc and (not outs or rnd.random() > long):
                return w
            if not outs:
                return w if q in self.acc else None
            k, q = rnd.choice(outs)
            good = [c for c in cs[k] if c.isalnum() and ord(c) < 128 or c in " .,-:/'"] or cs[k]
            w += rnd.choice(good)
        for x in self.some(1):
            return x
        return None


def make(cls, trans, acc):
    """minimise and intern; state 0 is the start"""
    # reachable states
    order, seen = [0], {0}
    for q in order:
        for t in trans[q]:
            if t not in seen:
                seen.add(t)
                order.append(t)
    # Moore partition refinement
    part = {q: (q in acc) for q in order}
    n = len(set(part.values()))
    while True:
        sig = {}
        new = {}
        for q in order:
            k = (part[q],) + tuple(part[t] for t in trans[q])
            new[q] = sig.setdefault(k, len(sig))
        part = new
        if len(sig) == n:
            break
        n = len(sig)
    reps = {}
    for q in order:
        reps.setdefault(part[q], q)
    # merge byte classes that behave alike, renumber states breadth first
    nc = len(trans[0])
    cols = {}
    ren = [None] * nc
    for k in range(nc):
        col = tuple(part[trans[reps[p]][k]] for p in range(n))
        ren[k] = cols.setdefault(col, len(cols))
    newcls = [ren[k] for k in cls]
    # canonical class numbers by first byte
    canon = {}
    for c in range(256):
        canon.setdefault(newcls[c], len(canon))
    newcls = bytes(canon[k] for k in newcls)
    nc2 = len(canon)
    col_of = [None] * nc2
    for k in range(nc):
        if ren[k] in canon:
            col_of[canon[ren[k]]] = k
    start = part[0]
    num, queue = {start: 0}, [start]
    rows = []
    for p in queue:
        row = []
        for k in range(nc2):
            t = part[trans[reps[p]][col_of[k]]]
            if t not in num:
                num[t] = len(num)
                queue.append(t)
            row.append(num[t])
        rows.append(tuple(row))
    a = frozenset(num[part[q]] for q in order if q in acc and part[q] in num)
    key = (newcls, tuple(rows), a)
    r = _INTERN.get(key)
    if r is None:
        r = Lang()
        r.id = len(_INTERN)
        r.cls, r.nc, r.trans, r.acc = newcls, nc2, tuple(rows), a
        r._len = r._words = r._num = None
        # live: an accepting state is reachable
        rev = {}
        for q, row in enumerate(rows):
            for t in row:
                rev.setdefault(t, set()).add(q)
        live, st = set(a), list(a)
        while st:
            for q in rev.get(st.pop(), ()):
                if q not in live:
                    live.add(q)
                    st.append(q)
        r.live = frozenset(live)
        _INTERN[key] = r
    return r


def from_ast(n, drop=0):
    """Language of an expression (assertions count as empty); bytes in the mask
    `drop` are removed from every set."""
    key = ("ast", n, drop)
    r = _CACHE.get(key)
    if r is not None:
        return r
    nfa = rx.NFA(n)
    if drop:
        nfa.tr = [[(m & ~drop, t) for m, t in row] for row in nfa.tr]
    masks = {m for row in nfa.tr for m, _ in row if m}
    cl, sig, reps = [0] * 256, {}, []
    ml = list(masks)
    for c in range(256):
        k = tuple(m >> c & 1 for m in ml)
        if k not in sig:
            sig[k] = len(sig)
            reps.append(c)
        cl[c] = sig[k]
    ids = {nfa.init(): 0}
    queue = [nfa.init()]
    trans, acc = [], set()
    for ss in queue:
        if nfa.final(ss):
            acc.add(ids[ss])
        row = []
        for c in reps:
            t = nfa.step(ss, c)
            if t not in ids:
                ids[t] = len(ids)
                queue.append(t)
                if len(ids) > 20000:
                    raise rx.RxError("automaton too large")
            row.append(ids[t])
        trans.append(row)
    r = _CACHE[key] = make(bytes(cl), trans, acc)
    return r


def from_words(ws):
    key = ("words", tuple(sorted(ws)))
    r = _CACHE.get(key)
    if r is None:
        ws = sorted(ws)
        used = sorted({ord(c) for w in ws for c in w})
        cls = [0] * 256
        for i, c in enumerate(used):
            cls[c] = i + 1
        nodes, trans, acc = {"": 0}, [], set()
        queue = [""]
        pref = {w[:i] for w in ws for i in range(len(w) + 1)}
        pref.add("")
        for p in queue:
            row = [None]
            for c in used:
                x = p + chr(c)
                if x in pref:
                    if x not in nodes:
                        nodes[x] = len(nodes)
                        queue.append(x)
                    row.append(nodes[x])
                else:
                    row.append(None)
            trans.append(row)
            if p in ws:
                acc.add(nodes[p])
        sink = len(trans)
        trans.append([sink] * (len(used) + 1))
        trans = [[sink if t is None else t for t in row] for row in trans]
        r = _CACHE[key] = make(bytes(cls), trans, acc)
    return r


def literal(w):
    return from_words([w])


def _product(a, b, op, opname):
    if opname in ("and", "or") and a.id > b.id:
        a, b = b, a
    key = (opname, a.id, b.id)
    r = _CACHE.get(key)
    if r is not None:
        return r
    pairs, reps, cls = {}, [], [0] * 256
    for c in range(256):
        k = (a.cls[c], b.cls[c])
        if k not in pairs:
            pairs[k] = len(pairs)
            reps.append(k)
        cls[c] = pairs[k]
    ids, queue = {(0, 0): 0}, [(0, 0)]
    trans, acc = [], set()
    for p, q in queue:
        if op(p in a.acc, q in b.acc):
            acc.add(ids[p, q])
        row = []
        ta, tb = a.trans[p], b.trans[q]
        for ka, kb in reps:
            t = (ta[ka], tb[kb])
            if t not in ids:
                ids[t] = len(ids)
                queue.append(t)
            row.append(ids[t])
        trans.append(row)
    r = _CACHE[key] = make(bytes(cls), trans, acc)
    return r


def inter(a, b):
    return _product(a, b, lambda x, y: x and y, "and")


def union(a, b):
    return _product(a, b, lambda x, y: x or y, "or")


def minus(a, b):
    return _product(a, b, lambda x, y: x and not y, "minus")


def compl(a):
    return minus(ALL, a)


def reach(l, r):
    """For each state of r reachable by reading words of l: {state: True}."""
    key = ("reach", l.id, r.id)
    out = _CACHE.get(key)
    if out is None:
        out = reach_from(l, r, 0)
        _CACHE[key] = out
    return out


def reach_from(l, r, q0):
    """States of r reached from q0 by words of l."""
    key = ("reachf", l.id, r.id, q0)
    out = _CACHE.get(key)
    if out is not None:
        return out
    pairs, reps = set(), []
    for c in range(256):
        k = (l.cls[c], r.cls[c])
        if k not in pairs:
            pairs.add(k)
            reps.append(k)
    seen, queue = {(0, q0)}, [(0, q0)]
    out = set()
    for p, q in queue:
        if p in l.acc:
            out.add(q)
        for ka, kb in reps:
            t = l.trans[p][ka]
            if t in l.live:
                x = (t, r.trans[q][kb])
                if x not in seen:
                    seen.add(x)
                    queue.append(x)
    out = frozenset(out)
    _CACHE[key] = out
    return out


def into(r, q0, targets):
    """Language of the words that lead r from q0 into one of the targets."""
    key = ("into", r.id, q0, targets)
    x = _CACHE.get(key)
    if x is None:
        if q0 == 0:
            x = make(r.cls, r.trans, targets)
        else:
            # start state first
            perm = [q0] + [q for q in range(len(r.trans)) if q != q0]
            pos = {q: i for i, q in enumerate(perm)}
            trans = [[pos[t] for t in r.trans[q]] for q in perm]
            x = make(r.cls, trans, {pos[t] for t in targets})
        _CACHE[key] = x
    return x


_any = ("set", rx.ALL)
ALL = from_ast(("rep", _any, 0, None, True))
EMPTY = from_words([])
EPS = literal("")
LOWERCASE = from_ast(("rep", ("set", rx.ALL & ~rx.UPPER), 0, None, True))
NONEMPTY = from_ast(("rep", _any, 1, None, True))


def containing(w):
    return search(tuple_lit(w))


def tuple_lit(w):
    return ("cat", tuple(("set", 1 << ord(c)) for c in w))


def search(n, drop=0):
    """Strings in which the expression matches somewhere (^ and $ honoured at the outside only when plain)."""
    a = ("rep", _any, 0, None, True)
    return from_ast(("cat", (a, n, a)), drop)


def starting(w):
    return from_ast(("cat", (tuple_lit(w), ("rep", _any, 0, None, True))))


def of_len(lo, hi):
    return from_ast(("rep", _any, lo, hi, True))


DIGITS = from_ast(("rep", ("set", rx.DIGIT), 1, None, True))
SIGNED = from_ast(("cat", (("set", 1 << 43 | 1 << 45), ("rep", ("set", rx.DIGIT), 1, None, True))))


def cased(l, up):
    """Language of the words of l with every ASCII letter in upper (or lower) case."""
    key = ("cased", l.id, bool(up))
    r = _CACHE.get(key)
    if r is not None:
        return r

    def pre(c):
        """bytes that become c"""
        o = c + 32 if up else c - 32
        if up:
            if 97 <= c <= 122:
                return ()
            return (c, o) if 65 <= c <= 90 else (c,)
        if 65 <= c <= 90:
            return ()
        return (c, o) if 97 <= c <= 122 else (c,)
    sig, cl, reps = {}, [0] * 256, []
    for c in range(256):
        k = tuple(sorted({l.cls[x] for x in pre(c)}))
        if k not in sig:
            sig[k] = len(reps)
            reps.append(k)
        cl[c] = sig[k]
    start = frozenset([0])
    ids, queue, trans, acc = {start: 0}, [start], [], set()
    for ss in queue:
        if ss & l.acc:
            acc.add(ids[ss])
        row = []
        for k in reps:
            t = frozenset(l.trans[q][x] for q in ss for x in k if l.trans[q][x] in l.live)
            if t not in ids:
                ids[t] = len(ids)
                queue.append(t)
            row.append(ids[t])
        trans.append(row)
    r = _CACHE[key] = make(bytes(cl), trans, acc)
    return r


def preimage(l, f):
    """the texts that f turns into words of l; f: ("chars", ((byte set mask, replacement), ...)) replaces single
    characters; ("runs", c, outputs): runs of the character c become outputs[starts the text, ends it, min(length, N)]"""
    key = ("pre", l.id, f)
    r = _CACHE.get(key)
    if r is not None:
        return r
    if f[0] == "chars":
        to = {}
        for c in range(256):
            w = next((w for m, w in f[1] if m >> c & 1), chr(c))
            to[c] = w
        sig, cl, reps = {}, [0] * 256, []
        for c in range(256):
            k = tuple(l.cls[ord(x)] for x in to[c])
            if k not in sig:
                sig[k] = len(reps)
                reps.append(to[c])
            cl[c] = sig[k]
        trans = [[l.run(w, q) for w in reps] for q in range(len(l.trans))]
        r = make(bytes(cl), trans, set(l.acc))
    else:
        _, ch, outs = f
        out = dict(outs)
        n = max(k for _, _, k in out)
        cl, reps = [0] * 256, []
        for c in range(256):
            k = ("run",) if c == ord(ch) else l.cls[c]
            if k not in reps:
                reps.append(k)
            cl[c] = reps.index(k)
        # states: (state of l before the current run, at the start of the text, length of the current run)
        ids, queue, trans, acc = {(0, True, 0): 0}, [(0, True, 0)], [], set()
        for q, first, k in queue:
            if l.run(out[first, True, k] if k else "", q) in l.acc:
                acc.add(ids[q, first, k])
            row = []
            for x in reps:
                if x == ("run",):
                    t = (q, first, min(k + 1, n))
                else:
                    p = l.run(out[first, False, k] if k else "", q)
                    t = (l.trans[p][x], False, 0)
                if t not in ids:
                    ids[t] = len(ids)
                    queue.append(t)
                row.append(ids[t])
            trans.append(row)
        r = make(bytes(cl), trans, acc)
    _CACHE[key] = r
    return r


def uncased(l, up):
    """the texts whose upper (or lower) case form is in l"""
    m = []
    for c in range(97, 123) if up else range(65, 91):
        m.append((1 << c, chr(c - 32 if up else c + 32)))
    return preimage(l, ("chars", tuple(m)))
