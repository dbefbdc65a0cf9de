"""Reader for the textual LLVM IR that clang produces from /repo's sources."""
import re
import subprocess

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*" | [%@!$][-a-zA-Z$._0-9]+ | [%@!$]"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*"
 | 0x[KMLHR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ | \.\.\. | [a-zA-Z_$.][-a-zA-Z$._0-9]* | [()\[\]{}<>,=*:|#!]
''', re.X)


class IRError(Exception):
    pass


# types: ('i',n) ('p',) ('f',) ('d',) ('v',) ('a',n,t) ('s',name) ('l',fields,packed) ('fn',)
PTR = ("p",)
VOID = ("v",)


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if self.next() != x:
            raise IRError("expected %s at %s" % (x, self.t[max(0, self.i - 5):self.i + 5]))

    # -------------------------------------------------- types
    def type(self):
        c = self.next()
        if c == "ptr":
            if self.peek() == "addrspace":
                self.skip_paren(1)
            r = PTR
        elif c == "void":
            r = VOID
        elif c == "double":
            r = ("d",)
        elif c == "float":
            r = ("f",)
        elif c == "x86_fp80":
            r = ("x",)
        elif c in ("label", "metadata", "token", "opaque"):
            r = (c,)
        elif c[0] == "i" and c[1:].isdigit():
            r = ("i", int(c[1:]))
        elif c == "[":
            n = int(self.next())
            self.need("x")
            t = self.type()
            self.need("]")
            r = ("a", n, t)
        elif c == "{":
            r = ("l", tuple(self.types("}")), False)
        elif c == "<":
            if self.peek() == "{":
                self.next()
                fs = tuple(self.types("}"))
                self.need(">")
                r = ("l", fs, True)
            else:
                n = int(self.next())
                self.need("x")
                t = self.type()
                self.need(">")
                r = ("vec", n, t)
        elif c[0] == "%":
            r = ("s", c[1:].strip('"'))
        else:
            raise IRError("type %s in %s" % (c, " ".join(self.t[:40])))
        while self.peek() == "(":            # function type
            self.skip_paren(0)
            r = ("fn", r)
        return r

    def types(self, close):
        out = []
        if self.eat(close):
            return out
        while True:
            out.append(self.type())
            if self.eat(close):
                return out
            self.need(",")

    def skip_paren(self, pre):
        self.i += pre
        d = 0
        while True:
            c = self.next()
            if c == "(":
                d += 1
            elif c == ")":
                d -= 1
                if d == 0:
                    return

    ATTR = {"noundef", "nonnull", "noalias", "signext", "zeroext", "nocapture", "returned", "inreg", "readonly", "writeonly",
            "readnone", "immarg", "nest", "swiftself", "nofree", "noreturn", "nounwind", "inalloca", "nofpclass", "allocptr", "allocalign", "inrange", "dead_on_unwind", "writable", "swifterror", "noundef"}

    def attrs(self):
        while True:
            c = self.peek()
            if c in self.ATTR:
                self.i += 1
            elif c in ("align",):
                self.i += 1
                if self.peek() == "(":
                    self.skip_paren(0)
                else:
                    self.i += 1
            elif c in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "preallocated", "elementtype", "range", "initializes"):
                self.i += 1
                self.skip_paren(0)
            else:
                return

    # -------------------------------------------------- values
    def value(self, t):
        """('r',name) ('c',int) ('g',name) ('null',) ('undef',) ('zero',) ('agg',[(t,v)]) ('str',bytes)
        ('gep',srct,base,idx) ('fp',float) ('cast',op,t1,v,t2)"""
        c = self.next()
        if c[0] == "%":
            return ("r", c[1:].strip('"'))
        if c[0] == "@":
            return ("g", c[1:].strip('"'))
        if c == "null":
            return ("null",)
        if c in ("undef", "poison"):
            return ("undef",)
        if c == "zeroinitializer":
            return ("zero",)
        if c == "true":
            return ("c", 1)
        if c == "false":
            return ("c", 0)
        if c == "none":
            return ("undef",)
        if t[0] in ("d", "f", "x"):
            if c.startswith("0x"):
                if c[2] in "KMLHR":
                    return ("undef",)
                import struct
                return ("fp", struct.unpack(">d", bytes.fromhex(c[2:].rjust(16, "0")))[0])
            return ("fp", float(c))
        if c.lstrip("-").isdigit():
            return ("c", int(c))
        if c[0] == "c" and c[1:2] == '"':
            return ("str", unescape(c[2:-1]))
        if c == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.i += 1
            self.need("(")
            st = self.type()
            self.need(",")
            bt = self.type()
            b = self.value(bt)
            idx = []
            while self.eat(","):
                while self.peek() == "inrange":
                    self.i += 1
                    if self.peek() == "(":
                        self.skip_paren(0)
                it = self.type()
                idx.append((it, self.value(it)))
            self.need(")")
            return ("gep", st, b, idx)
        if c in ("bitcast", "ptrtoint", "inttoptr", "trunc", "addrspacecast", "sext", "zext"):
            self.need("(")
            t1 = self.type()
            v = self.value(t1)
            self.need("to")
            t2 = self.type()
            self.need(")")
            return ("cast", c, t1, v, t2)
        if c in ("sub", "add", "mul"):
            while self.peek() in ("nuw", "nsw"):
                self.i += 1
            self.need("(")
            t1 = self.type()
            a = self.value(t1)
            self.need(",")
            t2 = self.type()
            b = self.value(t2)
            self.need(")")
            return ("bin", c, t1, a, b)
        if c in ("[", "{", "<"):
            packed = False
            if c == "<" and self.peek() == "{":
                self.next()
                packed = True
                c = "{"
            close = {"[": "]", "{": "}", "<": ">"}[c]
            out = []
            if not self.eat(close):
                while True:
                    et = self.type()
                    out.append((et, self.value(et)))
                    if self.eat(close):
                        break
                    self.need(",")
            if packed:
                self.need(">")
            return ("agg", out)
        if c in ("dso_local_equivalent", "no_cfi"):
            return self.value(t)
        raise IRError("value %s in %s" % (c, " ".join(self.t[:60])))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Func:
    __slots__ = ("name", "ret", "params", "lines", "blocks", "order", "entry", "parsed", "mod", "vararg", "rpo")

    def __init__(self, mod, name, ret, params, lines):
        self.mod, self.name, self.ret, self.params, self.lines = mod, name, ret, params, lines
        self.parsed = False
        self.rpo = None

    def parse(self):
        if self.parsed:
            return self
        self.blocks, self.order = {}, []
        cur = None
        label = None
        lines = self.lines
        i = 0
        n = len(self.params)
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.split(";")[0].strip() if '"' not in ln else ln.strip()
            if not s:
                continue
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', ln)
            if m and not ln.startswith(" "):
                label = m.group(1).strip('"')
                cur = []
                self.blocks[label] = cur
                self.order.append(label)
                continue
            if cur is None:
                label = str(n)
                cur = []
                self.blocks[label] = cur
                self.order.append(label)
            if s.startswith("switch") and "]" not in s:
                while "]" not in lines[i]:
                    s += " " + lines[i].strip()
                    i += 1
                s += " ]"
                i += 1
            while (" = landingpad" in s or s.startswith("landingpad")) and i < len(lines) and re.match(r"^\s+(cleanup|catch|filter)\b", lines[i]):
                s += " " + lines[i].strip()
                i += 1
            if " invoke " in " " + s and i < len(lines) and lines[i].strip().startswith("to label"):
                s += " " + lines[i].strip()
                i += 1
            cur.append(parse_inst(s, self.mod))
        self.entry = self.order[0]
        self.parsed = True
        return self

    def succs(self, b):
        t = self.blocks[b][-1]
        op = t[1]
        if op == "br":
            return [t[2]]
        if op == "cbr":
            return [t[3], t[4]]
        if op == "switch":
            return [t[4]] + [l for _, l in t[5]]
        if op == "invoke":
            return [t[5], t[6]]
        return []

    def order_rpo(self):
        if self.rpo is None:
            self.parse()
            seen, out = set(), []
            st = [(self.entry, iter(self.succs(self.entry)))]
            seen.add(self.entry)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succs(s))))
                        break
                else:
                    st.pop()
                    out.append(b)
            out.reverse()
            self.rpo = {b: i for i, b in enumerate(out)}
        return self.rpo


BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc",
        "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "inbounds", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "disjoint", "nneg"}


def parse_inst(s, mod):
    """(result, op, ...)"""
    toks = TOK.findall(s)
    res = None
    if len(toks) > 1 and toks[1] == "=" and toks[0][0] == "%":
        res = toks[0][1:].strip('"')
        toks = toks[2:]
    p = P(toks, mod)
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op == "alloca":
        p.eat("inalloca")
        t = p.type()
        n = ("c", 1)
        if p.eat(",") and p.peek() != "align":
            nt = p.type()
            n = p.value(nt)
        return (res, "alloca", t, n)
    if op == "load":
        p.eat("atomic")
        p.eat("volatile")
        t = p.type()
        p.need(",")
        _, v = p.tv()
        return (res, "load", t, v)
    if op == "store":
        p.eat("atomic")
        p.eat("volatile")
        t, v = p.tv()
        p.need(",")
        _, a = p.tv()
        return (res, "store", t, v, a)
    if op == "getelementptr":
        while p.peek() in FLAGS:
            p.i += 1
        st = p.type()
        p.need(",")
        _, b = p.tv()
        idx = []
        while p.eat(","):
            if p.peek().startswith("!"):
                break
            idx.append(p.tv())
        return (res, "gep", st, b, idx)
    if op in ("call", "invoke"):
        while p.peek() in FLAGS or p.peek() in ("fastcc", "ccc", "coldcc"):
            p.i += 1
        p.attrs()
        t = p.type()
        if t[0] == "fn":
            t = t[1]
        if p.peek() == "asm":
            return (res, "asm")
        f = p.value(PTR)
        p.need("(")
        args = []
        if not p.eat(")"):
            while True:
                if p.peek() == "metadata":
                    while p.peek() not in (",", ")"):
                        p.i += 1
                    args.append((("metadata",), ("undef",)))
                else:
                    args.append(p.tv())
                if p.eat(")"):
                    break
                p.need(",")
        if op == "call":
            return (res, "call", t, f, args)
        while p.peek() != "to":
            p.i += 1
        p.need("to")
        p.need("label")
        ok = p.next()[1:].strip('"')
        p.need("unwind")
        p.need("label")
        return (res, "invoke", t, f, args, ok, p.next()[1:].strip('"'))
    if op == "br":
        if p.eat("label"):
            return (res, "br", p.next()[1:].strip('"'))
        _, c = p.tv()
        p.need(",")
        p.need("label")
        a = p.next()[1:].strip('"')
        p.need(",")
        p.need("label")
        return (res, "cbr", c, a, p.next()[1:].strip('"'))
    if op == "switch":
        t, v = p.tv()
        p.need(",")
        p.need("label")
        d = p.next()[1:].strip('"')
        p.need("[")
        cs = []
        while not p.eat("]"):
            _, c = p.tv()
            p.need(",")
            p.need("label")
            cs.append((c[1], p.next()[1:].strip('"')))
        return (res, "switch", t, v, d, cs)
    if op == "ret":
        t = p.type()
        return (res, "ret", t, None if t == VOID else (p.attrs(), p.value(t))[1])
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGS:
            p.i += 1
        pred = p.next()
        t, a = p.tv()
        p.need(",")
        return (res, op, pred, t, a, p.value(t))
    if op in BIN:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        t, a = p.tv()
        p.need(",")
        return (res, "bin", op, t, a, p.value(t), "nsw" in fl)
    if op in CAST:
        while p.peek() in FLAGS:
            p.i += 1
        t, v = p.tv()
        p.need("to")
        return (res, "cast", op, t, v, p.type())
    if op == "select":
        while p.peek() in FLAGS:
            p.i += 1
        _, c = p.tv()
        p.need(",")
        t, a = p.tv()
        p.need(",")
        _, b = p.tv()
        return (res, "select", t, c, a, b)
    if op == "phi":
        while p.peek() in FLAGS:
            p.i += 1
        t = p.type()
        ins = []
        while True:
            p.need("[")
            v = p.value(t)
            p.need(",")
            ins.append((v, p.next()[1:].strip('"')))
            p.need("]")
            if not p.eat(","):
                break
        return (res, "phi", t, ins)
    if op == "extractvalue":
        t, v = p.tv()
        ix = []
        while p.eat(","):
            ix.append(int(p.next()))
        return (res, "extractvalue", t, v, ix)
    if op == "insertvalue":
        t, v = p.tv()
        p.need(",")
        et, e = p.tv()
        ix = []
        while p.eat(","):
            ix.append(int(p.next()))
        return (res, "insertvalue", t, v, et, e, ix)
    if op == "landingpad":
        t = p.type()
        cl, cleanup = [], False
        while p.peek():
            k = p.next()
            if k == "cleanup":
                cleanup = True
            elif k == "catch":
                _, v = p.tv()
                cl.append(v)
            elif k == "filter":
                p.tv()
        return (res, "landingpad", t, cl, cleanup)
    if op == "resume":
        t, v = p.tv()
        return (res, "resume", t, v)
    if op == "unreachable":
        return (res, "unreachable")
    if op in ("fneg", "freeze"):
        while p.peek() in FLAGS:
            p.i += 1
        t, v = p.tv()
        return (res, op, t, v)
    if op in ("fence",):
        return (res, "nop")
    return (res, "unknown", s)


class Module:
    def __init__(self, path):
        self.types, self.globals, self.funcs, self.decls, self.aliases = {}, {}, {}, set(), {}
        self._size, self._lay = {}, {}
        text = open(path, encoding="latin-1").read()
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if ln.startswith("%") and " = type " in ln:
                name, body = ln.split(" = type ", 1)
                self.types[name[1:].strip('"')] = body
            elif ln.startswith("@"):
                self.global_(ln)
            elif ln.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                self.func(ln, body)
            elif ln.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls.add(m.group(1).strip('"'))
        names = sorted(set(self.funcs) | self.decls)
        out = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.dem = dict(zip(names, out))

    def demangle(self, n):
        return self.dem.get(n, n)

    def struct(self, name):
        b = self.types[name]
        if isinstance(b, str):
            if b.startswith("opaque"):
                b = ("l", (), False)
            else:
                b = P(TOK.findall(b), self).type()
            self.types[name] = b
        return b

    def global_(self, ln):
        m = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        name, rest = m.group(1).strip('"'), m.group(2)
        if re.search(r"\balias\b", rest.split("(")[0]):
            self.aliases[name] = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', rest)[-1].strip('"')
            return
        ext = " external " in " " + rest.split("global")[0].split("constant")[0] + " "
        toks = rest
        k = re.search(r"\b(global|constant)\b", toks)
        const = k.group(1) == "constant"
        self.globals[name] = [const, ext, toks[k.end():], None]

    def func(self, ln, body):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        name = m.group(1).strip('"')
        toks = TOK.findall(ln[m.end() - 1:])
        p = P(toks, self)
        p.need("(")
        params = []
        va = False
        if not p.eat(")"):
            while True:
                if p.eat("..."):
                    va = True
                else:
                    t = p.type()
                    p.attrs()
                    params.append((t, p.next()[1:].strip('"') if p.peek()[:1] == "%" else str(len(params))))
                if p.eat(")"):
                    break
                p.need(",")
        pre = ln[:m.start()].split()
        self.funcs[name] = Func(self, name, None, params, body)
        self.funcs[name].vararg = va

    # -------------------------------------------------- layout
    def size(self, t):
        r = self._size.get(t)
        if r is None:
            r = self._size[t] = self.layout(t)[0]
        return r

    def layout(self, t):
        """(size, align)"""
        k = t[0]
        if k == "i":
            n = t[1]
            b = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            return b, b
        if k == "p":
            return 8, 8
        if k == "d":
            return 8, 8
        if k == "f":
            return 4, 4
        if k == "x":
            return 16, 16
        if k == "a":
            s, a = self.layout(t[2])
            return s * t[1], a
        if k == "s":
            return self.layout(self.struct(t[1]))
        if k == "l":
            self.offsets(t)
            return self._lay[t][1:]
        if k == "vec":
            s, a = self.layout(t[2])
            return s * t[1], s * t[1]
        raise IRError("layout %s" % (t,))

    def offsets(self, t):
        if t[0] == "s":
            t = self.struct(t[1])
        r = self._lay.get(t)
        if r is None:
            off, al, offs = 0, 1, []
            for f in t[1]:
                s, a = self.layout(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            r = self._lay[t] = (offs, (off + al - 1) // al * al, al)
        return r[0]

    def fields(self, t):
        if t[0] == "s":
            t = self.struct(t[1])
        return t[1]

    def init(self, name):
        g = self.globals[name]
        if isinstance(g[2], str):
            p = P(TOK.findall(g[2]), self)
            t = p.type()
            v = None
            if not g[1]:
                v = p.value(t)
            g[2], g[3] = t, v
        return g
