"""Symbolic execution of the LLVM IR of /repo's functions: every path, every input,
loops as they stand in the code, callees by their contracts (models.py) or by their own bodies."""
import time
from fractions import Fraction

import ir
import vals
from vals import B, Ctx, ForkOn, Lin, Unsupported

_ids = [1]


class Ptr:
    __slots__ = ("o", "f")

    def __init__(self, o, f):
        self.o, self.f = o, f

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.o == x.o and self.f == x.f

    def __hash__(self):
        return hash((self.o, self.f))

    def __repr__(self):
        return "&%s+%s" % (self.o, self.f)


NULL = Ptr(0, 0)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn:" + self.name


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Comb:
    """Several cells read as one integer (ABI coercion of small structs): ((off, size, value)...)"""
    __slots__ = ("size", "cells")

    def __init__(self, size, cells):
        self.size, self.cells = size, cells


class SChar:
    """Character i of a partly unknown text."""
    __slots__ = ("s", "i")

    def __init__(self, s, i):
        self.s, self.i = s, i


class FindV:
    """Result of a search for `pat` in an unknown text: 0 when it begins with it, -1 when absent."""
    __slots__ = ("s", "pat")

    def __init__(self, s, pat):
        self.s, self.pat = s, pat


class Obj:
    __slots__ = ("id", "size", "cells", "zero", "base", "owner", "kind", "name", "alive", "nat")

    def __init__(self, size, kind, name=""):
        self.id = _ids[0]
        _ids[0] += 1
        self.size, self.kind, self.name = size, kind, name
        self.cells, self.zero, self.base, self.alive, self.nat = {}, False, None, True, None
        self.owner = None

    def copy(self, owner):
        o = Obj.__new__(Obj)
        o.id, o.size, o.kind, o.name, o.zero, o.base, o.alive, o.nat = (
            self.id, self.size, self.kind, self.name, self.zero, self.base, self.alive, self.nat)
        o.cells = dict(self.cells)
        o.owner = owner
        return o


class Frame:
    __slots__ = ("fn", "blk", "lab", "prev", "ip", "regs", "allocas", "ret", "inv", "counts", "hook")

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.lab, f.prev, f.ip, f.ret, f.inv, f.hook = (
            self.fn, self.blk, self.lab, self.prev, self.ip, self.ret, self.inv, self.hook)
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.counts = dict(self.counts)
        return f


class Exc:
    """A thrown exception: type name, what() text, object."""
    __slots__ = ("type", "what", "ptr")

    def __init__(self, type_, what, ptr):
        self.type, self.what, self.ptr = type_, what, ptr


class State:
    def __init__(self):
        self.frames, self.heap, self.ctx = [], {}, Ctx()
        self.tok = object()
        self.log = []
        self.caught = []
        self.done = None                  # ('ret', value) | ('throw', Exc) | ('dead',)
        self.glob = {}                    # global name -> object id
        self.notes = set()
        self.trail = []                   # decisions taken, for reports
        self.arrivals = 0                 # at Engine.stop
        self.ghost = {}

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        self.tok, s.tok = object(), object()
        s.ctx = self.ctx.copy()
        s.log, s.caught, s.done, s.notes = list(self.log), list(self.caught), self.done, set(self.notes)
        s.glob = dict(self.glob)
        s.trail = list(self.trail)
        s.arrivals = self.arrivals
        s.ghost = dict(self.ghost)
        return s

    # ------------------------------------------------------------ memory
    def new(self, size, kind, name=""):
        o = Obj(size, kind, name)
        o.owner = self.tok
        self.heap[o.id] = o
        return o

    def w(self, oid):
        o = self.heap[oid]
        if o.owner is not self.tok:
            o = o.copy(self.tok)
            self.heap[oid] = o
        return o


class Fail:
    """A failed obligation."""
    __slots__ = ("kind", "what", "ctx", "where", "cond")

    def __init__(self, kind, what, ctx, where, cond=None):
        self.kind, self.what, self.ctx, self.where, self.cond = kind, what, ctx, where, cond


class Dead(Exception):
    """This path ends (an obligation failed on all of it, or it is impossible)."""


class Throw(Exception):
    """Raised by a model: the callee throws."""

    def __init__(self, type_, what=""):
        self.type, self.what = type_, what


class Engine:
    MAXVISIT = 3000

    def __init__(self, mod, models):
        self.m = mod
        self.models = models
        self.fails = []
        self.obl = {}                     # obligation name -> count discharged
        self.unsupported = []
        self.steps = 0
        self.paths = 0
        self.deadline = None
        self.inlined = set()
        self.contracts = set()
        self._model = {}
        self._global = {}
        self.init_state = None
        self.frame_check = True           # writes to globals fail an obligation
        self.initialising = False
        self.stop, self.stop_at = None, 1 # (function, block) of the outermost frame at which a run pauses
        self.merge = False                # join the arms of branches on unknown conditions
        self.nomerge = {}
        self.cut = {}                     # dem key -> handler, added for one proof
        self.ops = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith("op_")}

    # ------------------------------------------------------------ obligations
    def ok(self, st, name, n=1):
        self.obl[name] = self.obl.get(name, 0) + n

    def where(self, st):
        f = st.frames[-1] if st.frames else None
        for g in reversed(st.frames):
            d = self.m.demangle(g.fn.name)
            if own(d):
                return d.split("(")[0]
        return self.m.demangle(f.fn.name)[:120] if f else "?"

    def oblige(self, st, cond, kind, what):
        """Prove cond on this path; continue under it."""
        if cond is True or st.ctx.quick(cond) is True if isinstance(cond, B) else cond:
            self.ok(st, kind)
            return
        if cond is False:
            self.fails.append(Fail(kind, what, st.ctx.copy(), self.where(st)))
            raise Dead()
        r, model = st.ctx.valid(cond)
        if r == "proved":
            self.ok(st, kind)
            st.ctx.assume(cond)
            return
        c = st.ctx.copy()
        c.assume(vals.neg(cond))
        if r == "refuted":
            self.fails.append(Fail(kind, what, c, self.where(st), cond))
        else:
            self.unsupported.append("%s undecided in %s" % (what, self.where(st)))
        if st.ctx.decide(cond) is False:
            raise Dead()
        st.ctx.assume(cond)

    def truth(self, st, c):
        if c is True or c is False:
            return c
        if isinstance(c, int):
            return c != 0
        if isinstance(c, B):
            r = st.ctx.quick(c)
            if r is None:
                raise ForkOn(c)
            return r
        if c is UNDEF:
            self.fails.append(Fail("defined", "a value that was never set decides a branch", st.ctx.copy(), self.where(st)))
            raise Dead()
        raise Unsupported("condition %r" % (c,))

    # ------------------------------------------------------------ numbers
    def sn(self, st, v, n):
        """signed value of an n-bit integer"""
        if isinstance(v, int):
            if v is True or v is False:
                v = int(v)
            h = 1 << (n - 1)
            if -h <= v < h:
                return v
            return (v + h) % (2 * h) - h
        if isinstance(v, Lin):
            h = 1 << (n - 1)
            lo, hi = vals.interval(v, st.ctx.bounds)
            if lo >= -h and hi < h:
                return v
            if hi < h or not self.truth(st, vals.lt(h - 1, v)):
                if lo >= -h or not self.truth(st, vals.lt(v, -h)):
                    return v
                return self.sn(st, v + 2 * h, n) if lo > -9 * h else vals.divmod_(v + h, 2 * h)[1] - h
            return self.sn(st, v - 2 * h, n) if hi < 9 * h else vals.divmod_(v + h, 2 * h)[1] - h
        if isinstance(v, B):
            return (1 if n > 1 else -1) if self.truth(st, v) else 0
        if isinstance(v, Comb):
            return self.comb_low(st, v, n)
        return v

    def un(self, st, v, n):
        if isinstance(v, int):
            return int(v) % (1 << n)
        if isinstance(v, Lin):
            w = 1 << n
            lo, hi = vals.interval(v, st.ctx.bounds)
            if lo >= 0 and hi < w:
                return v
            if lo >= 0 or not self.truth(st, vals.lt(v, 0)):
                if hi < w or not self.truth(st, vals.lt(w - 1, v)):
                    return v
                return self.un(st, v - w, n) if hi < 5 * w else vals.divmod_(v, w)[1]
            return self.un(st, v + w, n) if lo > -5 * w else vals.divmod_(v, w)[1]
        if isinstance(v, B):
            return 1 if self.truth(st, v) else 0
        if isinstance(v, Comb):
            return self.comb_low(st, v, n)
        return v

    def comb_low(self, st, v, n):
        """low n bits of a combined value"""
        for off, size, x in v.cells:
            if off == 0 and size * 8 >= n:
                return x
        if all(isinstance(x, int) for _, _, x in v.cells):
            r = 0
            for off, size, x in v.cells:
                r |= (int(x) % (1 << (8 * size))) << (8 * off)
            return r % (1 << n)
        raise Unsupported("part of a combined value")

    # ------------------------------------------------------------ memory
    def obj(self, st, p, what="access"):
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.fails.append(Fail("defined", "a pointer that was never set is used", st.ctx.copy(), self.where(st)))
                raise Dead()
            raise Unsupported("%s through %r" % (what, p))
        if p.o == 0:
            self.fails.append(Fail("memory", "null pointer %s" % what, st.ctx.copy(), self.where(st)))
            raise Dead()
        o = st.heap.get(p.o)
        if o is None or not o.alive:
            self.fails.append(Fail("memory", "%s to an object that no longer exists" % what, st.ctx.copy(), self.where(st)))
            raise Dead()
        return o

    def offset(self, st, p):
        """concrete offset of a pointer"""
        if isinstance(p.f, int):
            return p.f
        v = self.sn(st, p.f, 64)
        if isinstance(v, int):
            return v
        lo, hi = vals.interval(v, st.ctx.bounds)
        if hi - lo > 4096:
            raise Unsupported("access at an unknown offset")
        k = st.ctx.value(v)
        if k is None:
            raise Dead()
        if self.truth(st, vals.eq(v, k)):
            return k
        raise Unsupported("offset")

    def bounds(self, st, o, f, size, what):
        if 0 <= f and f + size <= o.size:
            self.ok(st, "memory")
            return
        self.fails.append(Fail("memory", "%s outside an object (%s)" % (what, o.name), st.ctx.copy(), self.where(st)))
        raise Dead()

    def load(self, st, p, t):
        o = self.obj(st, p, "read")
        f = p.f if isinstance(p.f, int) else None
        if f is None:
            v = self.sn(st, p.f, 64)
            if isinstance(v, int):
                f = v
            else:
                return self.load_any(st, o, v, t)
        size = self.m.size(t)
        c = o.cells.get(f)
        if c is not None and c[0] == size:
            if o.alive and f + size <= o.size:
                return c[1]
        self.bounds(st, o, f, size, "read")
        return self.load_at(st, o, f, size, t)

    def load_any(self, st, o, v, t):
        """read of a constant table at an unknown index"""
        lo, hi = vals.interval(v, st.ctx.bounds)
        if hi - lo > 8192:
            raise Unsupported("read at an unknown offset")
        self.oblige(st, vals.conj(vals.le(0, v), vals.le(v, o.size - self.m.size(t))), "memory", "read outside an object")
        k = st.ctx.value(v)
        if k is None:
            raise Dead()
        if self.truth(st, vals.eq(v, k)):
            return self.load_at(st, o, k, self.m.size(t), t)
        raise Unsupported("offset")

    def load_at(self, st, o, f, size, t):
        c = o.cells.get(f)
        if c is not None and c[0] == size:
            return c[1]
        if t[0] in ("s", "l", "a"):
            return self.load_agg(st, o, f, t)
        # parts
        parts = []
        for x in range(max(0, f - 63), f + size):
            c = o.cells.get(x)
            if c is not None and x + c[0] > f:
                parts.append((x, c))
        if not parts:
            if o.base is not None:
                raw = o.base[f:f + size]
                if len(raw) < size:
                    raw = raw + b"\0" * (size - len(raw))
                if t[0] == "p":
                    return NULL if not any(raw) else self.bad("pointer bytes")
                if t[0] == "d":
                    import struct
                    return dbl(struct.unpack("<d", raw)[0])
                return int.from_bytes(raw, "little", signed=True)
            if o.zero:
                return NULL if t[0] == "p" else 0
            return UNDEF
        if len(parts) == 1 and parts[0][0] <= f and parts[0][0] + parts[0][1][0] >= f + size:
            x, (s, v) = parts[0]
            if isinstance(v, int):
                return self.sn(st, (v % (1 << (8 * s))) >> (8 * (f - x)), 8 * size)
            if isinstance(v, Comb):
                for off, sz, y in v.cells:
                    if off == f - x and sz == size:
                        return y
            if f == x and t[0] == "i" and isinstance(v, (Lin, B)):
                lo, hi = vals.interval(v, st.ctx.bounds) if isinstance(v, Lin) else (0, 1)
                if 0 <= lo and hi < 1 << (8 * size - 1):
                    return v
            raise Unsupported("partial read of %r" % (v,))
        if all(x >= f and x + c[0] <= f + size for x, c in parts) and t[0] in ("i", "d"):
            cells = tuple((x - f, c[0], c[1]) for x, c in parts)
            if all(isinstance(v, int) for _, _, v in cells) and sum(s for _, s, _ in cells) == size:
                r = 0
                for off, s, v in cells:
                    r |= (int(v) % (1 << (8 * s))) << (8 * off)
                return self.sn(st, r, 8 * size)
            return Comb(size, cells)
        raise Unsupported("overlapping read in %s" % o.name)

    def bad(self, what):
        raise Unsupported(what)

    def load_agg(self, st, o, f, t):
        if t[0] == "a":
            s = self.m.size(t[2])
            return [self.load_at(st, o, f + i * s, s, t[2]) for i in range(t[1])]
        return [self.load_at(st, o, f + off, self.m.size(ft), ft) for off, ft in zip(self.m.offsets(t), self.m.fields(t))]

    def store(self, st, p, t, v):
        o = self.obj(st, p, "write")
        f = self.offset(st, p)
        if t[0] in ("s", "l") and isinstance(v, list):
            for off, ft, x in zip(self.m.offsets(t), self.m.fields(t), v):
                self.store(st, Ptr(p.o, f + off), ft, x)
            return
        if t[0] == "a" and isinstance(v, list):
            s = self.m.size(t[2])
            for i, x in enumerate(v):
                self.store(st, Ptr(p.o, f + i * s), t[2], x)
            return
        self.put(st, o, f, self.m.size(t), v)

    def put(self, st, o, f, size, v):
        c = o.cells.get(f)
        if c is None or c[0] != size or f + size > o.size:
            self.bounds(st, o, f, size, "write")
        if o.kind == "global" or o.kind == "const":
            self.global_write(st, o, v)
        elif o.kind != "stack":
            self.ok(st, "frame")
        o = st.w(o.id)
        if c is not None and c[0] == size:
            o.cells[f] = (size, v)
            return
        if o.cells and not (o.size == size):
            for x in range(max(0, f - 63), f + size):
                c = o.cells.get(x)
                if c is not None and x + c[0] > f and x < f + size:
                    if x >= f and x + c[0] <= f + size:
                        del o.cells[x]
                    else:
                        # a partly overwritten number
                        s, y = c
                        if isinstance(y, int) and isinstance(v, int) and x <= f and x + s >= f + size:
                            r = y % (1 << (8 * s))
                            m = ((1 << (8 * size)) - 1) << (8 * (f - x))
                            r = (r & ~m) | ((v % (1 << (8 * size))) << (8 * (f - x)))
                            o.cells[x] = (s, self.sn(st, r, 8 * s))
                            return
                        if isinstance(y, Comb):
                            del o.cells[x]
                            for off, sz, z in y.cells:
                                if not (x + off < f + size and x + off + sz > f):
                                    o.cells[x + off] = (sz, z)
                            continue
                        raise Unsupported("partial write over %r in %s" % (y, o.name))
        elif o.cells:
            o.cells = {}
        if isinstance(v, Comb):
            for off, sz, z in v.cells:
                o.cells[f + off] = (sz, z)
            return
        o.cells[f] = (size, v)

    def global_write(self, st, o, v):
        if self.initialising:
            return
        n = o.name
        if o.kind == "const":
            self.fails.append(Fail("memory", "write to the constant %s" % n, st.ctx.copy(), self.where(st)))
            raise Dead()
        if n.startswith("_ZGV"):
            return
        d = self.m.demangle(n) if n in self.m.dem else n
        if n.startswith("_ZZ") and guarded(self.m, n) and st.glob.get("guard:" + n) == "open":
            if symbolic(v):
                self.fails.append(Fail("frame", "a static variable keeps a value that depends on the call (%s)" % n, st.ctx.copy(), self.where(st)))
            else:
                self.ok(st, "frame")
            return
        self.fails.append(Fail("frame", "the call changes the global %s" % n, st.ctx.copy(), self.where(st)))

    # ------------------------------------------------------------ globals
    def gptr(self, st, name):
        m = self.m
        name = m.aliases.get(name, name)
        if name in m.funcs or name in m.decls:
            return Fn(name)
        oid = st.glob.get(name)
        if oid is None:
            g = m.init(name)
            const, ext, t, v = g
            if ext and v is None:
                o = st.new(64, "extern", name)
                if name.startswith("_ZTV") or name.startswith("_ZTI"):
                    o.size = 4096
            else:
                o = st.new(m.size(t), "const" if const else "global", name)
                o.zero = True
                self.fill(st, o, 0, t, v)
                if const and o.base is not None and not o.cells:
                    o.nat = "bytes"
            st.glob[name] = o.id
            oid = o.id
        return Ptr(oid, 0)

    def fill(self, st, o, off, t, v):
        if v is None or v[0] == "zero" or v[0] == "undef":
            return
        if v[0] == "str":
            if off == 0 and len(v[1]) == o.size:
                o.base = v[1]
            else:
                for i, b in enumerate(v[1]):
                    o.cells[off + i] = (1, b if b < 128 else b - 256)
            return
        if v[0] == "agg":
            if t[0] == "a":
                s = self.m.size(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.fill(st, o, off + i * s, et, ev)
            else:
                for fo, (et, ev) in zip(self.m.offsets(t), v[1]):
                    self.fill(st, o, off + fo, et, ev)
            return
        o.cells[off] = (self.m.size(t), self.const(st, t, v))

    def const(self, st, t, v):
        k = v[0]
        if k == "c":
            n = v[1]
            if t[0] == "i":
                if t[1] == 1:
                    return bool(n & 1)
                return self.sn(st, n, t[1])
            return n
        if k == "g":
            return self.gptr(st, v[1])
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "zero":
            if t[0] == "p":
                return NULL
            if t[0] == "i":
                return 0
            if t[0] in ("s", "l"):
                return [self.const(st, ft, v) for ft in self.m.fields(t)]
            if t[0] == "a":
                return [self.const(st, t[2], v) for _ in range(t[1])]
            return 0
        if k == "fp":
            return dbl(v[1])
        if k == "gep":
            return self.gep(st, v[1], self.const(st, ir.PTR, v[2]), [(it, self.const(st, it, iv)) for it, iv in v[3]])
        if k == "agg":
            return [self.const(st, et, ev) for et, ev in v[1]]
        if k == "cast":
            x = self.const(st, v[2], v[3])
            return x
        if k == "bin":
            a, b = self.const(st, v[2], v[3]), self.const(st, v[2], v[4])
            if isinstance(a, int) and isinstance(b, int):
                return {"sub": a - b, "add": a + b, "mul": a * b}[v[1]]
        raise Unsupported("constant %r" % (v,))

    def gep(self, st, t, b, idx):
        if isinstance(b, Fn):
            return b
        if not isinstance(b, Ptr):
            if b is UNDEF:
                return UNDEF
            raise Unsupported("address from %r" % (b,))
        off = b.f
        first = True
        for it, i in idx:
            i = self.sn(st, i, it[1])
            if i is UNDEF:
                return UNDEF
            if first:
                first = False
                if not (isinstance(i, int) and i == 0):
                    off = vals.add(off, vals.scale(i, self.m.size(t)) if isinstance(i, (int, Lin)) else self.bad("index %r" % (i,)))
                continue
            if t[0] in ("a", "vec"):
                t = t[2]
                off = vals.add(off, vals.scale(i, self.m.size(t)) if isinstance(i, (int, Lin)) else self.bad("index"))
            else:
                off = vals.add(off, self.m.offsets(t)[i])
                t = self.m.fields(t)[i]
        if b.o == 0:
            return Ptr(0, off)
        return Ptr(b.o, off)

    def val(self, st, f, t, v):
        if v[0] == "r":
            return f.regs[v[1]]
        return self.const(st, t, v)

    # ------------------------------------------------------------ running
    def call(self, st, name, args, ret=None, inv=None, hook=None):
        fn = self.m.funcs[self.m.aliases.get(name, name)].parse()
        if len(st.frames) > 200:
            raise Unsupported("recursion")
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.allocas, f.ret, f.inv, f.counts, f.hook = fn, {}, [], ret, inv, {}, hook
        for (t, n), a in zip(fn.params, args):
            f.regs[n] = a
        f.lab, f.prev, f.ip = fn.entry, None, 0
        f.blk = fn.blocks[fn.entry]
        st.frames.append(f)
        if own(self.m.demangle(fn.name)):
            self.inlined.add(fn.name)
        return f

    def jump(self, st, f, lab):
        f.prev, f.lab, f.ip = f.lab, lab, 0
        f.blk = f.fn.blocks[lab]
        n = f.counts[lab] = f.counts.get(lab, 0) + 1
        if self.stop is not None and self.stop == (f.fn.name, lab) and len(st.frames) == 1:
            st.arrivals += 1
            if st.arrivals >= self.stop_at:
                st.done = ("at", lab)
        if n > self.MAXVISIT:
            raise Unsupported("loop without a bound in %s" % self.m.demangle(f.fn.name)[:100])
        # phis are evaluated together
        b = f.blk
        if b and b[0][1] == "phi":
            out, i = {}, 0
            while b[i][1] == "phi":
                for v, l in b[i][3]:
                    if l == f.prev:
                        out[b[i][0]] = self.val(st, f, b[i][2], v)
                        break
                i += 1
            f.regs.update(out)
            f.ip = i

    def ret(self, st, v):
        f = st.frames.pop()
        for a in f.allocas:
            o = st.w(a)
            o.alive = False
            o.cells = {}
        if f.hook:
            f.hook(self, st, f, v)
        if not st.frames:
            st.done = ("ret", v)
            return
        g = st.frames[-1]
        if st.done:
            return
        if f.ret is not None:
            g.regs[f.ret] = v
        if f.inv is not None:
            self.jump(st, g, f.inv[0])
        else:
            g.ip += 1

    def throw(self, st, exc):
        """unwind: the current instruction of the top frame is the throwing call"""
        while st.frames:
            f = st.frames[-1]
            ins = f.blk[f.ip]
            if ins[1] == "invoke":
                lp = f.fn.blocks[ins[6]]
                i = 0
                while lp[i][1] == "phi":
                    i += 1
                l = lp[i]
                sel = None
                for c in l[3]:
                    ti = c[1] if c[0] == "g" else None
                    if ti is None or self.catches(ti, exc.type):
                        sel = self.typeid(ti)
                        break
                if sel is not None or l[4]:
                    self.jump(st, f, ins[6])
                    f.regs[l[0]] = [exc.ptr, sel if sel is not None else 0]
                    f.ip = i + 1
                    st.log.append(("catch", exc.type, self.m.demangle(f.fn.name).split("(")[0]) if sel is not None else ("unwind",))
                    return
            for a in f.allocas:
                o = st.w(a)
                o.alive = False
            st.frames.pop()
        st.done = ("throw", exc)

    def typeid(self, ti):
        if ti is None:
            return 1
        return 2 + sum(ord(c) * (i + 1) for i, c in enumerate(ti)) % 1000000

    def catches(self, ti, type_):
        return ti in bases(self.m, type_)

    def run_all(self, st, limit=200000):
        """All paths from st; yields the final states."""
        work = [st]
        while work:
            st = work.pop()
            try:
                self.run(st)
            except ForkOn as e:
                if self.deadline and time.time() > self.deadline:
                    self.unsupported.append("time limit")
                    return
                c = e.cond
                r = st.ctx.decide(c)
                if r is True:
                    st.ctx.assume(c)
                    work.append(st)
                elif r is False:
                    st.ctx.assume(vals.neg(c))
                    work.append(st)
                else:
                    other = st.fork()
                    st.ctx.assume(c)
                    other.ctx.assume(vals.neg(c))
                    st.trail.append(c)
                    other.trail.append(vals.neg(c))
                    work.append(other)
                    work.append(st)
                    if len(work) > limit:
                        raise Unsupported("too many paths")
                continue
            except Dead:
                self.paths += 1
                continue
            except Unsupported as e:
                self.paths += 1
                self.unsupported.append("%s (in %s)" % (e, self.where(st)))
                continue
            except RecursionError:
                self.unsupported.append("recursion limit")
                continue
            self.paths += 1
            yield st
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append("time limit")
                return

    def run(self, st):
        ops = self.ops
        n = 0
        while not st.done:
            f = st.frames[-1]
            ins = f.blk[f.ip]
            n += 1
            ops[ins[1]](st, f, ins)
            if n & 0x3ff == 0 and self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit")
        self.steps += n

    # ------------------------------------------------------------ instructions
    def op_alloca(self, st, f, i):
        n = self.val(st, f, ("i", 64), i[3])
        if not isinstance(n, int):
            raise Unsupported("variable array")
        o = st.new(self.m.size(i[2]) * n, "stack", str(i[0]))
        f.allocas.append(o.id)
        f.regs[i[0]] = Ptr(o.id, 0)
        f.ip += 1

    def op_load(self, st, f, i):
        p = f.regs[i[3][1]] if i[3][0] == "r" else self.const(st, ir.PTR, i[3])
        v = f.regs[i[0]] = self.load(st, p, i[2])
        if v.__class__ is Mixed:
            raise Unsupported("a value nothing is known of")
        f.ip += 1

    def op_store(self, st, f, i):
        v = f.regs[i[3][1]] if i[3][0] == "r" else self.const(st, i[2], i[3])
        p = f.regs[i[4][1]] if i[4][0] == "r" else self.const(st, ir.PTR, i[4])
        self.store(st, p, i[2], v)
        f.ip += 1

    def op_gep(self, st, f, i):
        b = self.val(st, f, ir.PTR, i[3])
        f.regs[i[0]] = self.gep(st, i[2], b, [(t, self.val(st, f, t, v)) for t, v in i[4]])
        f.ip += 1

    def op_br(self, st, f, i):
        self.jump(st, f, i[2])

    def op_cbr(self, st, f, i):
        c = self.val(st, f, ("i", 1), i[2])
        if self.merge and isinstance(c, B) and st.ctx.quick(c) is None and self.diamond(st, f, i, c):
            return
        self.jump(st, f, i[3] if self.truth(st, c) else i[4])

    # ------------------------------------------------------------ both arms of a branch as one path
    ARM = 4000

    def diamond(self, st, f, i, c):
        """run both arms up to where they meet again and join the states; False when that does not work"""
        j = joins(f.fn).get(f.lab)
        if j is None or f.fn.blocks[j][0][1] == "phi":
            return False
        key = (id(f.fn), f.lab)
        if self.nomerge.get(key, 0) > 3:
            return False
        if st.ctx.decide(c) is not None:
            return False
        nf, ob, un, steps = len(self.fails), dict(self.obl), len(self.unsupported), self.steps
        arms = []
        try:
            for lab, cond in ((i[3], c), (i[4], vals.neg(c))):
                s = st.fork()
                s.ctx.assume(cond)
                self.jump(s, s.frames[-1], lab)
                if not self.until(s, len(st.frames), j):
                    raise Mixed
                arms.append(s)
            if len(self.fails) > nf or len(self.unsupported) > un:
                raise Mixed
            join(st, f, j, c, *arms)
        except (ForkOn, Throw, Dead, Unsupported, Mixed):
            del self.fails[nf:]
            del self.unsupported[un:]
            self.obl = ob
            self.nomerge[key] = self.nomerge.get(key, 0) + 1
            return False
        self.nomerge[key] = 0
        return True

    def until(self, st, depth, lab):
        n = 0
        while not st.done:
            f = st.frames[-1]
            if len(st.frames) == depth and f.lab == lab and f.ip == 0:
                return True
            if len(st.frames) < depth:
                return False
            n += 1
            if n > self.ARM:
                return False
            ins = f.blk[f.ip]
            self.ops[ins[1]](st, f, ins)
            if n & 0xff == 0 and self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit")
        return False

    def op_switch(self, st, f, i):
        v = self.sn(st, self.val(st, f, i[2], i[3]), i[2][1])
        if v is UNDEF:
            self.truth(st, v)
        for c, l in i[5]:
            if self.truth(st, self.eq(st, v, self.sn(st, c, i[2][1]))):
                return self.jump(st, f, l)
        self.jump(st, f, i[4])

    def eq(self, st, a, b):
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return vals.eq(a, b) if isinstance(a, Lin) or isinstance(b, Lin) else a == b
        if isinstance(a, (FindV, SChar)) or isinstance(b, (FindV, SChar)):
            return self.models.eq_text(self, st, a, b)
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if a == 0 and not isinstance(a, (Ptr, Fn)):
                a = NULL
            if b == 0 and not isinstance(b, (Ptr, Fn)):
                b = NULL
            if isinstance(a, Fn) or isinstance(b, Fn):
                return isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o != b.o:
                    return False
                return vals.eq(a.f, b.f) if isinstance(a.f, Lin) or isinstance(b.f, Lin) else a.f == b.f
        if isinstance(a, B) and isinstance(b, B):
            return self.truth(st, a) == self.truth(st, b)
        raise Unsupported("comparison of %r and %r" % (a, b))

    def op_icmp(self, st, f, i):
        _, _, pred, t, x, y = i
        a, b = self.val(st, f, t, x), self.val(st, f, t, y)
        f.regs[i[0]] = self.icmp(st, pred, t, a, b)
        f.ip += 1

    def icmp(self, st, pred, t, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        n = t[1] if t[0] == "i" else 64
        if isinstance(a, B) or a is True or a is False or isinstance(b, B) or b is True or b is False:
            # a truth value compared with a constant
            if isinstance(b, int) and not isinstance(a, int) or isinstance(a, B) and isinstance(b, int):
                c, k = a, int(b)
            elif isinstance(b, B) and isinstance(a, int):
                c, k = b, int(a)
            else:
                c, k = None, None
            if c is not None and pred in ("eq", "ne"):
                if k in (0, 1) or (n == 1 and k == -1):
                    r = c if k else vals.neg(c)
                    return r if pred == "eq" else vals.neg(r)
            if isinstance(a, B):
                a = 1 if self.truth(st, a) else 0
            if isinstance(b, B):
                b = 1 if self.truth(st, b) else 0
            a, b = (int(x) if isinstance(x, bool) else x for x in (a, b))
            if n == 1:
                a, b = a & 1, b & 1
        if pred in ("eq", "ne"):
            if t[0] == "i" and n > 1:
                a, b = self.sn(st, a, n), self.sn(st, b, n)
            r = self.eq(st, a, b)
            return r if pred == "eq" else vals.neg(r)
        if t[0] == "p" or isinstance(a, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                a, b = a.f, b.f
                pred = {"u": "s"}.get(pred[0], pred[0]) + pred[1:]
            else:
                raise Unsupported("order of pointers")
        if pred[0] == "s":
            a, b = self.sn(st, a, n), self.sn(st, b, n)
        else:
            a, b = self.un(st, a, n), self.un(st, b, n)
        if isinstance(a, (SChar, FindV)) or isinstance(b, (SChar, FindV)):
            return self.models.cmp_text(self, st, pred, a, b, n)
        if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            raise Unsupported("order of %r and %r" % (a, b))
        k = pred[1:]
        if k == "lt":
            return vals.lt(a, b)
        if k == "le":
            return vals.le(a, b)
        if k == "gt":
            return vals.lt(b, a)
        return vals.le(b, a)

    def op_fcmp(self, st, f, i):
        _, _, pred, t, x, y = i
        a, b = self.val(st, f, t, x), self.val(st, f, t, y)
        if a is UNDEF or b is UNDEF:
            f.regs[i[0]] = UNDEF
        else:
            if isinstance(a, Fraction) or isinstance(b, Fraction):
                d = (a.denominator if isinstance(a, Fraction) else 1) * (b.denominator if isinstance(b, Fraction) else 1)
                a = a * d if not isinstance(a, Lin) else vals.scale(a, d)
                b = b * d if not isinstance(b, Lin) else vals.scale(b, d)
                a = int(a) if isinstance(a, Fraction) else a
                b = int(b) if isinstance(b, Fraction) else b
            k = pred[1:]
            if pred in ("ord", "uno"):
                r = pred == "ord"
            elif pred in ("true", "false"):
                r = pred == "true"
            else:
                r = {"eq": vals.eq, "ne": lambda p, q: vals.neg(vals.eq(p, q)), "lt": vals.lt, "le": vals.le,
                     "gt": lambda p, q: vals.lt(q, p), "ge": lambda p, q: vals.le(q, p)}[k](a, b)
            f.regs[i[0]] = r
        f.ip += 1

    def op_fneg(self, st, f, i):
        v = self.val(st, f, i[2], i[3])
        f.regs[i[0]] = vals.scale(v, -1) if isinstance(v, Lin) else -v
        f.ip += 1

    def op_freeze(self, st, f, i):
        f.regs[i[0]] = self.val(st, f, i[2], i[3])
        f.ip += 1

    def op_bin(self, st, f, i):
        _, _, op, t, x, y, nsw = i
        a, b = self.val(st, f, t, x), self.val(st, f, t, y)
        f.regs[i[0]] = self.binop(st, op, t, a, b, nsw)
        f.ip += 1

    def binop(self, st, op, t, a, b, nsw):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op[0] == "f" and t[0] in ("d", "f"):
            return self.fbin(op, a, b)
        n = t[1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                return vals.add(a.f, vals.scale(b.f, -1))
            if op == "add" and isinstance(a, Ptr):
                return Ptr(a.o, vals.add(a.f, b))
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.o, vals.add(a.f, -b))
            raise Unsupported("arithmetic on pointers")
        if n == 1 and op in ("and", "or", "xor"):
            return self.logic(st, op, a, b)
        if op in ("and", "or", "xor") and (isinstance(a, B) or isinstance(b, B)):
            if all(isinstance(z, (B, bool)) or z in (0, 1) for z in (a, b)):
                return self.logic(st, op, a, b)
        if isinstance(a, (FindV, SChar)) or isinstance(b, (FindV, SChar)):
            if op in ("sub", "xor") and isinstance(b, (int, SChar)) and isinstance(a, SChar):
                raise Unsupported("arithmetic on a character")
            raise Unsupported("arithmetic on %r" % (a,))
        if op in ("add", "sub", "mul"):
            if nsw:
                a, b = self.sn(st, a, n), self.sn(st, b, n)
            else:
                a, b = (self.sn(st, z, n) if isinstance(z, (B, bool, Comb)) else z for z in (a, b))
            if op == "mul":
                if isinstance(a, Lin) and isinstance(b, Lin):
                    raise Unsupported("product of two unknowns")
                r = vals.scale(a, b) if isinstance(b, int) else vals.scale(b, a)
            else:
                r = vals.add(a, b if op == "add" else vals.scale(b, -1))
            h = 1 << (n - 1)
            if nsw:
                self.oblige(st, vals.conj(vals.le(-h, r), vals.lt(r, h)), "overflow", "signed overflow")
                return r
            if isinstance(r, int):
                return self.sn(st, r, n)
            return r
        if op in ("sdiv", "srem"):
            a, b = self.sn(st, a, n), self.sn(st, b, n)
            if not isinstance(b, int):
                raise Unsupported("division by an unknown")
            if b == 0:
                self.oblige(st, False, "division", "division by zero")
            if isinstance(a, int):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == "sdiv" else a - q * b
            if b == -1:
                self.oblige(st, vals.lt(-(1 << (n - 1)), a), "overflow", "signed overflow")
            if self.truth(st, vals.lt(a, 0)):
                q, r = vals.divmod_(vals.scale(a, -1), abs(b))
                q, r = vals.scale(q, -1), vals.scale(r, -1)
            else:
                q, r = vals.divmod_(a, abs(b))
            if op == "srem":
                return r
            return q if b > 0 else vals.scale(q, -1)
        if op in ("udiv", "urem"):
            a, b = self.un(st, a, n), self.un(st, b, n)
            if not isinstance(b, int):
                raise Unsupported("division by an unknown")
            if b == 0:
                self.oblige(st, False, "division", "division by zero")
            q, r = vals.divmod_(a, b)
            return q if op == "udiv" else r
        if op == "shl":
            a, b = self.sn(st, a, n) if nsw else a, self.un(st, b, n)
            if isinstance(b, int) and isinstance(a, (int, Lin)):
                if b >= n:
                    self.oblige(st, False, "overflow", "shift too far")
                r = vals.scale(a, 1 << b)
                return self.sn(st, r, n) if isinstance(r, int) else r
        if op in ("lshr", "ashr"):
            if isinstance(a, Comb) and isinstance(b, int):
                k = b // 8
                cells = tuple((o - k, s, v) for o, s, v in a.cells if o >= k)
                if len(cells) == 1 and cells[0][0] == 0:
                    return cells[0][2]
                return Comb(a.size - k, cells)
            a = self.un(st, a, n) if op == "lshr" else self.sn(st, a, n)
            b = self.un(st, b, n)
            if isinstance(b, int) and isinstance(a, (int, Lin)):
                return vals.divmod_(a, 1 << b)[0]
        if isinstance(a, int) and isinstance(b, int):
            a, b = self.un(st, a, n), self.un(st, b, n)
            if op == "and":
                return self.sn(st, a & b, n)
            if op == "or":
                return self.sn(st, a | b, n)
            if op == "xor":
                return self.sn(st, a ^ b, n)
        if op == "and" and isinstance(b, int):
            if isinstance(a, Comb):
                a = self.comb_low(st, a, max(8, b.bit_length()))
            b = self.un(st, b, n)
            if b & (b + 1) == 0 and isinstance(a, Lin):
                return vals.divmod_(self.un(st, a, n), b + 1)[1]
        if op == "xor" and isinstance(b, int) and b == -1 and isinstance(a, Lin):
            return vals.add(vals.scale(a, -1), -1)
        raise Unsupported("%s on %r, %r" % (op, a, b))

    def logic(self, st, op, a, b):
        a, b = (z if isinstance(z, B) else bool(int(z) & 1) for z in (a, b))
        if op == "and":
            return vals.conj(a, b)
        if op == "or":
            return vals.disj(a, b)
        if isinstance(b, bool):
            return vals.neg(a) if b else a
        if isinstance(a, bool):
            return vals.neg(b) if a else b
        return self.truth(st, a) != self.truth(st, b)

    def fbin(self, op, a, b):
        if isinstance(a, Lin) or isinstance(b, Lin):
            if op == "fadd":
                r = a, b
            elif op == "fsub":
                r = a, (vals.scale(b, -1) if isinstance(b, Lin) else -b)
            elif op == "fmul" and isinstance(b, int):
                return vals.scale(a, b)
            elif op == "fmul" and isinstance(a, int):
                return vals.scale(b, a)
            else:
                raise Unsupported("floating point")
            if any(isinstance(z, Fraction) for z in r):
                raise Unsupported("floating point")
            return vals.add(*r)
        a, b = Fraction(a), Fraction(b)
        if op == "fdiv" and b == 0:
            raise Unsupported("floating division by zero")
        r = {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[op]()
        return int(r) if r.denominator == 1 else r

    def op_cast(self, st, f, i):
        _, _, op, t, x, t2 = i
        v = self.val(st, f, t, x)
        f.regs[i[0]] = self.cast(st, op, t, v, t2)
        f.ip += 1

    def cast(self, st, op, t, v, t2):
        if v is UNDEF:
            return UNDEF
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            if op == "inttoptr" and v == 0 and not isinstance(v, Ptr):
                return NULL
            return v
        if op == "trunc":
            n = t2[1]
            if isinstance(v, Comb):
                return self.comb_low(st, v, n)
            if n == 1:
                if isinstance(v, (B, bool)):
                    return v
                v = self.un(st, v, t[1])
                if isinstance(v, int):
                    return bool(v & 1)
                lo, hi = vals.interval(v, st.ctx.bounds)
                if lo >= 0 and hi <= 1:
                    return vals.eq(v, 1)
                return vals.eq(vals.divmod_(v, 2)[1], 1)
            if isinstance(v, int):
                return self.sn(st, v, n)
            if isinstance(v, Ptr):
                raise Unsupported("truncated pointer")
            return v
        if op == "zext":
            if t[1] == 1:
                return v if isinstance(v, B) else int(bool(v))
            if isinstance(v, (B, SChar, FindV)):
                return v
            return self.un(st, v, t[1])
        if op == "sext":
            if t[1] == 1:
                return self.sn(st, v, 1) if isinstance(v, B) else (-1 if v else 0)
            if isinstance(v, (B, SChar, FindV)):
                return v
            return self.sn(st, v, t[1])
        if op == "sitofp":
            return self.sn(st, v, t[1])
        if op == "uitofp":
            return self.un(st, v, t[1])
        if op in ("fptosi", "fptoui"):
            n = t2[1]
            if isinstance(v, Fraction):
                v = int(v)
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op == "fptosi" else (0, (1 << n) - 1)
            self.oblige(st, vals.conj(vals.le(lo, v), vals.le(v, hi)), "overflow", "conversion of a number that does not fit")
            return v
        if op in ("fpext", "fptrunc"):
            return v
        raise Unsupported(op)

    def op_select(self, st, f, i):
        _, _, t, c, a, b = i
        c = self.val(st, f, ("i", 1), c)
        f.regs[i[0]] = self.val(st, f, t, a if self.truth(st, c) else b)
        f.ip += 1

    def op_extractvalue(self, st, f, i):
        v = self.val(st, f, i[2], i[3])
        for k in i[4]:
            v = v[k] if v is not UNDEF else UNDEF
        f.regs[i[0]] = v
        f.ip += 1

    def op_insertvalue(self, st, f, i):
        _, _, t, v, et, e, ix = i
        v = self.val(st, f, t, v)
        e = self.val(st, f, et, e)

        def ins(v, t, ix):
            if not ix:
                return e
            fs = self.m.fields(t) if t[0] in ("s", "l") else [t[2]] * t[1]
            v = [UNDEF] * len(fs) if v is UNDEF else list(v)
            v[ix[0]] = ins(v[ix[0]], fs[ix[0]], ix[1:])
            return v
        f.regs[i[0]] = ins(v, t, ix)
        f.ip += 1

    def op_resume(self, st, f, i):
        v = self.val(st, f, i[2], i[3])
        e = None
        o = st.heap[v[0].o]
        st.frames.pop()
        for a in f.allocas:
            st.w(a).alive = False
        if not st.frames:
            st.done = ("throw", o.nat)
            return
        self.throw(st, o.nat)

    def op_ret(self, st, f, i):
        self.ret(st, None if i[3] is None else self.val(st, f, i[2], i[3]))

    def op_unreachable(self, st, f, i):
        self.fails.append(Fail("reachable", "the code reaches a point it declares impossible", st.ctx.copy(), self.where(st)))
        raise Dead()

    def op_nop(self, st, f, i):
        f.ip += 1

    def op_asm(self, st, f, i):
        f.ip += 1

    def op_unknown(self, st, f, i):
        raise Unsupported("instruction %s" % i[2][:80])

    def op_landingpad(self, st, f, i):
        raise Unsupported("landing pad")

    def op_call(self, st, f, i):
        self.docall(st, f, i, None)

    def op_invoke(self, st, f, i):
        self.docall(st, f, i, (i[5], i[6]))

    def docall(self, st, f, i, inv):
        _, _, t, callee, args = i[:5]
        if callee[0] == "g":
            name = self.m.aliases.get(callee[1], callee[1])
        else:
            v = self.val(st, f, ir.PTR, callee)
            if not isinstance(v, Fn):
                if v is UNDEF:
                    self.truth(st, v)
                raise Unsupported("indirect call of %r" % (v,))
            name = v.name
        a = [self.val(st, f, at, av) if at[0] != "metadata" else None for at, av in args]
        h = self._model.get(name)
        if h is None:
            h = self._model[name] = self.models.find(self, name) or False
        if h:
            try:
                r = h(self, st, a, name)
            except Throw as e:
                self.raise_(st, e.type, e.what)
                return
            if r is DEFER:
                return
            if i[0] is not None:
                f.regs[i[0]] = r
            if inv:
                self.jump(st, f, inv[0])
            else:
                f.ip += 1
            return
        if name in self.m.funcs:
            self.call(st, name, a, i[0], inv)
            return
        raise Unsupported("call of %s" % self.m.demangle(name)[:160])

    def raise_(self, st, type_, what=""):
        o = st.new(16, "heap", "exception")
        e = Exc(type_, what, Ptr(o.id, 0))
        o.nat = e
        o.cells[0] = (8, self.excvt(st))
        self.throw(st, e)

    def excvt(self, st):
        oid = st.glob.get("native:exc")
        if oid is None:
            o = st.new(64, "const", "exception vtable")
            for k in range(0, 64, 8):
                o.cells[k] = (8, Fn("native:what" if k == 16 else "native:excdtor"))
            st.glob["native:exc"] = oid = o.id
        return Ptr(oid, 0)


DEFER = object()


class Mixed(Exception):
    """As a value: one that differs between the arms of a branch."""


def join(st, f, lab, c, a, b):
    """st becomes the state after a branch whose arms ended in a and b"""
    if len(a.caught) != len(b.caught) or len(a.caught) != len(st.caught) or a.frames[-1].allocas != b.frames[-1].allocas:
        raise Mixed
    heap = dict(a.heap)
    for oid, y in b.heap.items():
        x = heap.get(oid)
        if x is y:
            continue
        if x is None:
            heap[oid] = y
            continue
        if x.kind in ("global", "const") or x.size != y.size or x.nat is not y.nat or x.base is not y.base or x.zero != y.zero:
            if x.kind != y.kind or x.cells != y.cells:
                raise Mixed
        o = x.copy(None)
        o.alive = x.alive and y.alive
        if o.alive:
            for k in set(x.cells) | set(y.cells):
                p, q = x.cells.get(k), y.cells.get(k)
                if p is not None and q is not None and p[0] == q[0]:
                    v = both(c, p[1], q[1])
                elif x.kind == "stack":
                    v = Mixed()
                else:
                    raise Mixed
                if isinstance(v, Mixed) and x.kind != "stack":
                    raise Mixed
                o.cells[k] = ((p or q)[0], v)
        heap[oid] = o
    glob = dict(a.glob)
    for n, oid in b.glob.items():
        if glob.setdefault(n, oid) != oid and heap[oid].kind not in ("const", "extern"):
            raise Mixed
    g, h = a.frames[-1], b.frames[-1]
    regs = {}
    for k in set(g.regs) & set(h.regs):
        regs[k] = both(c, g.regs[k], h.regs[k], True)
    st.heap, st.glob = heap, glob
    st.tok = object()
    st.notes |= a.notes | b.notes
    f.regs, f.allocas = regs, list(g.allocas)
    f.counts = {k: max(g.counts.get(k, 0), h.counts.get(k, 0)) for k in set(g.counts) | set(h.counts)}
    f.lab, f.prev, f.ip, f.blk = lab, None, 0, f.fn.blocks[lab]


def both(c, x, y, any_=False):
    """the value that is x when c holds and y otherwise"""
    if x is y:
        return x
    if type(x) is type(y) and not isinstance(x, (Lin, B)) and not isinstance(x, float):
        try:
            if x == y:
                return x
        except Exception:
            pass
    if isinstance(x, Lin) and isinstance(y, Lin) and x.same(y):
        return x
    if isinstance(x, (B, bool)) and isinstance(y, (B, bool)):
        return vals.disj(vals.conj(c, x), vals.conj(vals.neg(c), y))
    if hasattr(x, "joined") and type(x) is type(y):
        return x.joined(c, y)
    if any_ or type(x) is not type(y) or hasattr(x, "p"):
        return Mixed()
    raise Mixed


def loop_heads(fn):
    """blocks that an edge enters from a block they dominate (normal edges)"""
    succ = successors(fn)
    out, state = set(), {}
    stack = [(fn.entry, iter(succ[fn.entry]))]
    state[fn.entry] = 1
    while stack:
        x, it = stack[-1]
        for y in it:
            if state.get(y) == 1:
                out.add(y)
            elif y not in state:
                state[y] = 1
                stack.append((y, iter(succ[y])))
                break
        else:
            state[x] = 2
            stack.pop()
    return out


def successors(fn):
    succ = {}
    for lab, b in fn.blocks.items():
        t = b[-1]
        k = t[1]
        succ[lab] = ([t[2]] if k == "br" else [t[3], t[4]] if k == "cbr" else [t[4]] + [x[1] for x in t[5]] if k == "switch" else
                     [t[5]] if k == "invoke" else [])
    return succ


def joins(fn):
    """immediate postdominators of the blocks of a function (along normal edges)"""
    r = _JOINS.get(id(fn))
    if r is not None:
        return r
    succ = successors(fn)
    live, todo = set(), [fn.entry]
    while todo:
        x = todo.pop()
        if x not in live:
            live.add(x)
            todo += succ[x]
    order = [x for x in fn.blocks if x in live]
    exits = [x for x in order if not succ[x]]
    full = frozenset(order)
    pd = {x: frozenset([x]) if not succ[x] else full for x in order}
    change = True
    while change:
        change = False
        for x in reversed(order):
            if not succ[x]:
                continue
            n = frozenset.intersection(*[pd[y] for y in succ[x]]) | {x}
            if n != pd[x]:
                pd[x] = n
                change = True
    r = {}
    for x in order:
        c = pd[x] - {x}
        # the nearest one: all others postdominate it
        for y in c:
            if len(pd[y]) == len(c):
                r[x] = y
    _JOINS[id(fn)] = r
    return r


_JOINS = {}


def dbl(x):
    f = Fraction(x)
    return int(f) if f.denominator == 1 else f


def symbolic(v):
    if isinstance(v, (Lin, B, SChar, FindV)):
        return True
    if hasattr(v, "p"):                  # text
        return v.lit() is None
    if isinstance(v, Comb):
        return any(symbolic(x) for _, _, x in v.cells)
    if isinstance(v, (list, tuple)):
        return any(symbolic(x) for x in v)
    return False


def guarded(mod, n):
    return True


STDBASE = {
    "_ZTISt9exception": [],
    "_ZTISt11logic_error": ["_ZTISt9exception"], "_ZTISt13runtime_error": ["_ZTISt9exception"],
    "_ZTISt12out_of_range": ["_ZTISt11logic_error"], "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
    "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt12domain_error": ["_ZTISt11logic_error"],
    "_ZTINSt7__cxx1111regex_errorE": ["_ZTISt13runtime_error"], "_ZTISt11regex_error": ["_ZTISt13runtime_error"],
    "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt8bad_cast": ["_ZTISt9exception"],
    "_ZTISt11range_error": ["_ZTISt13runtime_error"], "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
}
_BASES = {}


def bases(mod, ti):
    """all type infos an exception of this type is caught by"""
    r = _BASES.get(ti)
    if r is None:
        direct = STDBASE.get(ti)
        if direct is None:
            direct = []
            if ti in mod.globals:
                g = mod.init(ti)
                v = g[3]

                def refs(x):
                    if isinstance(x, tuple):
                        if x and x[0] == "g" and x[1].startswith("_ZTI"):
                            yield x[1]
                        for y in x:
                            yield from refs(y)
                    elif isinstance(x, list):
                        for y in x:
                            yield from refs(y)
                direct = list(refs(v))
        r = {ti}
        for b in direct:
            r |= bases(mod, b)
        _BASES[ti] = r
    return r


def own(d):
    for p in ("parse::", "parser::", "utils::", "refiners::", "EN", "OverlapRemover", "ExtractTimeZone", "main"):
        if d.startswith(p):
            return True
    return False
