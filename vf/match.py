"""Every way a pattern can match, as a finite set of shapes: the searched text as a
sequence of known and unknown pieces, with the span of each group.  Assertions are
dropped and repeated groups are taken as any text of their language, so the shapes
cover more matches than the pattern has, never fewer."""
import lang
import models
import rx
import vals
from vals import Unsupported


def has_group(n):
    k = n[0]
    if k == "grp":
        return True
    if k in ("cat", "alt"):
        return any(has_group(x) for x in n[1])
    if k in ("rep", "la"):
        return has_group(n[1])
    return False


def groups_in(n, out):
    k = n[0]
    if k == "grp":
        out[n[1]] = n[2]
        groups_in(n[2], out)
    elif k in ("cat", "alt"):
        for x in n[1]:
            groups_in(x, out)
    elif k in ("rep", "la"):
        groups_in(n[1], out)
    return out


def seqs(n):
    """sequences of ('leaf', expression) / ('(', g) / (')', g) / ('free', g, expression)"""
    k = n[0]
    if k in ("bol", "eol", "wb", "nwb", "la"):
        if k == "la" and has_group(n[1]):
            raise Unsupported("a group inside a lookahead")
        return [()]
    if not has_group(n):
        return [(("leaf", n),)]
    if k == "grp":
        return [(("(", n[1]),) + s + ((")", n[1]),) for s in seqs(n[2])]
    if k == "cat":
        out = [()]
        for x in n[1]:
            ys = seqs(x)
            out = [s + y for s in out for y in ys]
            if len(out) > 20000:
                raise Unsupported("too many shapes")
        return out
    if k == "alt":
        out = []
        plains = tuple(x for x in n[1] if not has_group(x))
        if plains:
            out += seqs(plains[0] if len(plains) == 1 else ("alt", plains))
        for x in n[1]:
            if has_group(x):
                out += seqs(x)
        return out
    if k == "rep":
        lo, hi = n[2], n[3]
        if hi == 1:
            return ([()] if lo == 0 else []) + seqs(n[1])
        free = tuple(("free", g, b) for g, b in sorted(groups_in(n[1], {}).items()))
        out = [(("leaf", ("rep", rx.strip_groups(n[1]), max(lo, 1), hi, n[4])),) + free]
        return ([()] if lo == 0 else []) + out
    raise Unsupported("pattern part %s" % k)


def plain(n):
    return rx.strip_groups(n)


class Shape:
    """pieces: Lang or str; g: group -> (i, j); free: group -> Lang"""
    __slots__ = ("pieces", "g", "free", "n", "names")

    def instantiate(self, pre=None, suf=None):
        """a match with fresh unknowns"""
        tx = [vals.leaf("before", pre or LOW)]
        for p, nm in zip(self.pieces, self.names):
            tx.append(p if isinstance(p, str) else vals.leaf(nm, p))
        tx.append(vals.leaf("after", suf or LOW))
        g = {k: (a + 1, b + 1) for k, (a, b) in self.g.items()}
        free = {}
        for k, L in self.free.items():
            ws = L.words()
            free[k] = models.lit(ws[0]) if ws and len(ws) == 1 else models.mk((vals.leaf("group %d" % k, L),))
        return models.MatchVal(tuple(tx), g, self.n, free)

    def __repr__(self):
        return " ".join(repr(p) if isinstance(p, str) else n for p, n in zip(self.pieces, self.names)) + " " + repr(self.g)


LOW = lang.LOWERCASE


def shapes(pat, icase=True, lower=True):
    ast, ng = rx.parse(pat, icase)
    drop = rx.UPPER if lower else 0
    out, seen = [], set()
    for s in seqs(("grp", 0, ast)):
        pieces, g, free, open_, names = [], {}, {}, {}, []
        cur = []
        dead = False

        def flush():
            if not cur:
                return True
            L = lang.from_ast(("cat", tuple(plain(x) for x in cur)), drop)
            cur.clear()
            if L.empty():
                return False
            ws = L.words(2)
            if ws is not None and len(ws) == 1:
                if ws[0]:
                    pieces.append(ws[0])
                    names.append("lit")
                return True
            pieces.append(L)
            names.append("p%d" % len(pieces))
            return True
        for it in s:
            if it[0] == "leaf":
                cur.append(it[1])
                continue
            if it[0] == "free":
                L = lang.from_ast(plain(it[2]), drop)
                free[it[1]] = L
                continue
            if not flush():
                dead = True
                break
            if it[0] == "(":
                open_[it[1]] = len(pieces)
            else:
                g[it[1]] = (open_[it[1]], len(pieces))
        if dead:
            continue
        sh = Shape()
        # names by the innermost group
        for k, (a, b) in sorted(g.items(), key=lambda x: -(x[1][1] - x[1][0])):
            for i in range(a, b):
                if names[i] != "lit":
                    names[i] = ("g%d" % k) + ("" if b - a == 1 else ".%d" % (i - a))
        sh.pieces, sh.g, sh.free, sh.n, sh.names = tuple(pieces), g, free, ng + 1, tuple(names)
        key = (sh.pieces, tuple(sorted(g.items())), tuple(sorted((k, v.id) for k, v in free.items())))
        if key in seen:
            continue
        seen.add(key)
        out.append(sh)
    return out
