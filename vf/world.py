"""The program under verification: its module, the state after its static initialisers,
and calls of single functions from given states."""
import engine
import ir
import models
import names
import spec
import strs
import vals
from engine import NULL, Ptr, UNDEF
from vals import B, Lin, Unsupported


class World:
    def __init__(self, path):
        self.m = ir.Module(path)
        self.byshort = {}
        self.sizes = {}
        for n in self.m.funcs:
            s, p, t = names.split(self.m.demangle(n))
            self.byshort.setdefault(s, []).append((p, n))
        self.init = engine.State()
        e = engine.Engine(self.m, models)
        e.initialising = True
        g = self.m.init("llvm.global_ctors")
        for x in (g[3][1] if g[3] else []):
            e.call(self.init, x[1][1][1][1][1], [])
            self.init.done = None
            out = list(e.run_all(self.init))
            if len(out) != 1 or e.fails or e.unsupported or out[0].done[0] != "ret":
                raise Unsupported("static initialisation: %s %s" % ([f.what for f in e.fails], e.unsupported))
            self.init = out[0]
        self.init.done = None
        self.init_steps = e.steps
        self.init_contracts = set(e.contracts)

    def engine(self):
        return engine.Engine(self.m, models)

    def fn(self, short, params=None):
        c = [(p, n) for p, n in self.byshort.get(short, []) if params is None or p.startswith(params)]
        if not c:
            raise Unsupported("the code has no function %s%s" % (short, params or ""))
        return c[0][1]

    def size(self, cls):
        """of a class: from the variable vf_instantiate declares (identical types are merged by the linker)"""
        if not self.sizes:
            f = self.m.funcs[self.fn("vf_instantiate")].parse()
            al = {}
            for b in f.blocks.values():
                for i in b:
                    if i[1] == "alloca":
                        al[i[0]] = self.m.size(i[2])
                    elif i[1] in ("call", "invoke") and i[3][0] == "g" and i[4] and i[4][0][1][0] == "r":
                        d = names.split(self.m.demangle(self.m.aliases.get(i[3][1], i[3][1])))[0]
                        c = d.rsplit("::", 1)[0]
                        if c.split("::")[-1] == d.split("::")[-1] and i[4][0][1][1] in al:
                            self.sizes[c] = al[i[4][0][1][1]]
        if cls in self.sizes:
            return self.sizes[cls]
        if ("class." + cls) in self.m.types:
            return self.m.size(("s", "class." + cls))
        raise Unsupported("the size of " + cls)

    def one(self, e, st, name, args):
        """run a function that has one outcome; returns (state, value)"""
        out = self.all(e, st, name, args)
        if len(out) != 1 or out[0].done[0] != "ret":
            raise Unsupported("%s has %d outcomes %s" % (self.m.demangle(name)[:60], len(out), e.unsupported + [(f.kind, f.what, f.where) for f in e.fails]))
        v = out[0].done[1]
        out[0].done = None
        return out[0], v

    def all(self, e, st, name, args):
        s = st.fork()
        s.done = None
        s.frames = []
        e.call(s, name, args)
        return list(e.run_all(s))

    def object(self, e, st, cls):
        o = st.new(self.size(cls), "heap", cls)
        s, _ = self.one(e, st, self.fn(cls + "::" + cls.split("::")[-1], "()"), [Ptr(o.id, 0)])
        return s, Ptr(o.id, 0)

    def parser(self, cls):
        """(state, object) with a parser constructed"""
        e = self.engine()
        st, p = self.object(e, self.init.fork(), cls)
        if e.fails or e.unsupported:
            raise Unsupported("construction of %s" % cls)
        # from here on the object is shared: a write through it is a change of state
        st.w(p.o).kind, st.heap[p.o].name = "global", "parser object"
        return st, p

    def virtual(self, st, obj, slot_fn):
        """the function a virtual call of Base::f reaches on this object"""
        cls, f = slot_fn
        raise NotImplementedError

    def pattern(self, st, obj, cls):
        e = self.engine()
        r = st.new(32, "heap", "pattern")
        s, _ = self.one(e, st, self.fn(cls + "::getPattern"), [Ptr(r.id, 0), obj])
        v = s.heap[r.id].cells.get(0)
        if v is None or not isinstance(v[1], models.Rx):
            # getPattern returns the text of the expression
            v = v[1]
            if hasattr(v, "lit") and v.lit() is not None:
                return models.Rx(v.lit(), True)
            raise Unsupported("pattern of %s" % cls)
        return v[1]


def ref_ticks(dn, h, mi, s, us):
    """boost's tick count of an instant (microseconds since day 0)"""
    return dn * spec.DAY + h * spec.HOUR + mi * spec.MINUTE + s * spec.SEC + us
