"""Reader for LLVM textual IR (rustc output, LLVM 20): lazily parses functions and globals."""
import re


class LLError(Exception):
    pass


# ---------------------------------------------------------------- types
# ('i',n) ('ptr',) ('void',) ('double',) ('float',) ('arr',n,t) ('st',(t..),packed) ('vec',n,t) ('label',) ('meta',)
def tsize(t):
    k = t[0]
    if k == "i":
        n = t[1]
        b = (n + 7) // 8
        a = talign(t)
        return (b + a - 1) // a * a
    if k == "ptr" or k == "double":
        return 8
    if k == "float":
        return 4
    if k == "arr":
        return t[1] * tsize(t[2])
    if k == "vec":
        return (t[1] * tbits(t[2]) + 7) // 8
    if k == "st":
        off = 0
        for f in t[1]:
            if not t[2]:
                a = talign(f)
                off = (off + a - 1) // a * a
            off += tsize(f)
        if not t[2]:
            a = talign(t)
            off = (off + a - 1) // a * a
        return off
    raise LLError("size of %r" % (t,))


def tstore(t):
    """bytes accessed by a load/store"""
    if t[0] == "i":
        return (t[1] + 7) // 8
    return tsize(t)


def tbits(t):
    if t[0] == "i":
        return t[1]
    if t[0] in ("ptr", "double"):
        return 64
    if t[0] == "float":
        return 32
    if t[0] == "vec":
        return t[1] * tbits(t[2])
    raise LLError("bits of %r" % (t,))


def talign(t):
    k = t[0]
    if k == "i":
        n = t[1]
        return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
    if k in ("ptr", "double"):
        return 8
    if k == "float":
        return 4
    if k == "arr":
        return talign(t[2])
    if k == "vec":
        return tsize(t)
    if k == "st":
        return 1 if t[2] or not t[1] else max(talign(f) for f in t[1])
    raise LLError("align of %r" % (t,))


def field_off(t, i):
    if t[0] == "arr":
        return i * tsize(t[2])
    if t[0] == "vec":
        return i * tsize(t[2])
    off = 0
    for j, f in enumerate(t[1]):
        if not t[2]:
            a = talign(f)
            off = (off + a - 1) // a * a
        if j == i:
            return off
        off += tsize(f)
    raise LLError("field")


TOK = re.compile(r"""
  (?P<str>c"[^"]*") | (?P<q>[@%$]"(?:[^"\\]|\\.)*") | (?P<id>[@%][-\w.$]+) | (?P<comdat>\$[-\w.]+)
 | (?P<meta>![\w.]*) | (?P<attr>\#\d+) | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+) | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<word>[A-Za-z_][\w.$]*) | (?P<s>"(?:[^"\\]|\\.)*") | (?P<dots>\.\.\.) | (?P<p>[(){}\[\]<>,=*:|])
""", re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c == " " or c == "\t" or c == "\n":
            pos += 1
            continue
        if c == ";":
            e = s.find("\n", pos)
            if e < 0:
                break
            pos = e
            continue
        m = TOK.match(s, pos)
        if not m:
            raise LLError("token at %r" % s[pos:pos + 60])
        out.append(m.group())
        pos = m.end()
    return out


PARAM_ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "zeroext", "signext",
               "inreg", "returned", "dead_on_unwind", "writable", "allocptr", "allocalign", "immarg", "nofree",
               "swiftself", "nest", "noext", "dead_on_return"}
PARAM_ATTRS_P = {"align", "dereferenceable", "dereferenceable_or_null", "range", "sret", "byval", "captures",
                 "initializes", "nofpclass", "elementtype", "byref", "preallocated", "inalloca", "alignstack"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "inbounds", "nneg", "samesign", "nusw", "fast", "nnan", "ninf", "nsz",
         "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "inrange"}
CC = {"fastcc", "coldcc", "ccc", "tailcc", "preserve_mostcc", "preserve_allcc"}


class P:
    """token cursor"""
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise LLError("expected %r got %r in %r" % (x, y, self.t[max(0, self.i - 8):self.i + 8]))

    def type(self):
        x = self.next()
        if x[0] == "i" and x[1:].isdigit():
            t = ("i", int(x[1:]))
        elif x == "ptr":
            t = ("ptr",)
            if self.accept("addrspace"):
                self.expect("(")
                self.next()
                self.expect(")")
        elif x in ("void", "double", "float", "label", "metadata", "half", "token", "x86_fp80", "fp128"):
            t = (x,)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif x == "{":
            fs = []
            if not self.accept("}"):
                while True:
                    fs.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            t = ("st", tuple(fs), False)
        elif x == "<":
            if self.accept("{"):
                fs = []
                if not self.accept("}"):
                    while True:
                        fs.append(self.type())
                        if self.accept("}"):
                            break
                        self.expect(",")
                self.expect(">")
                t = ("st", tuple(fs), True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif x[0] == "%":
            t = self.mod.named_type(x)
        else:
            raise LLError("type %r near %r" % (x, self.t[max(0, self.i - 5):self.i + 5]))
        # function type suffix  e.g. "void (ptr, ...)"
        while self.peek() == "(" and t[0] != "label" and self._fn_type_ahead():
            self.skip_parens()
            t = ("fn", t)
        return t

    def _fn_type_ahead(self):
        # only in call position "ret-type (types...) @f("
        d = 0
        j = self.i
        while j < len(self.t):
            if self.t[j] == "(":
                d += 1
            elif self.t[j] == ")":
                d -= 1
                if d == 0:
                    break
            j += 1
        return j + 1 < len(self.t) and self.t[j + 1][0] in "@%" and self.t[self.i + 1] in (
            ")", "ptr", "i64", "i32", "i8", "...", "i1", "i16", "i128", "double")

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def attrs(self):
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.i += 1
            elif x in PARAM_ATTRS_P:
                self.i += 1
                if self.peek() == "(":
                    self.skip_parens()
                elif x in ("align", "alignstack"):
                    self.next()
            elif x is not None and x[0] == "#":
                self.i += 1
            elif x is not None and x[0] == '"':
                self.i += 1
                if self.accept("="):
                    self.next()
            else:
                return

    # value of a known type: int | ('r',name) | ('agg',tuple) | ('undef',)
    def value(self, t):
        x = self.next()
        c = x[0]
        if c == "%":
            return x
        if c == "@":
            return self.mod.global_addr(x)
        if c.isdigit() or c == "-":
            if x.startswith("0x"):
                return int(x[2:], 16)
            if t[0] in ("double", "float"):
                import struct
                if t[0] == "double":
                    return struct.unpack("<Q", struct.pack("<d", float(x)))[0]
                return struct.unpack("<I", struct.pack("<f", float(x)))[0]
            return int(x) & ((1 << tbits(t)) - 1)
        if x == "true":
            return 1
        if x == "false":
            return 0
        if x == "null":
            return 0
        if x in ("undef", "poison", "zeroinitializer", "none"):
            if t[0] in ("st", "arr"):
                return zero_of(t)
            if t[0] == "vec":
                return 0
            return 0
        if x in ("{", "["):
            close = "}" if x == "{" else "]"
            vals = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    vals.append(self.value(et))
                    if self.accept(close):
                        break
                    self.expect(",")
            return ("agg", tuple(vals))
        if x == "<":
            if self.peek() == "{":
                self.next()
                vals = []
                if not self.accept("}"):
                    while True:
                        et = self.type()
                        vals.append(self.value(et))
                        if self.accept("}"):
                            break
                        self.expect(",")
                self.expect(">")
                return ("agg", tuple(vals))
            vals = []
            while True:
                et = self.type()
                vals.append(self.value(et))
                if self.accept(">"):
                    break
                self.expect(",")
            r = 0
            for i, v in enumerate(vals):
                if not isinstance(v, int):
                    raise LLError("vector constant")
                r |= v << (i * tbits(et))
            return r
        if c == "c" and x.startswith('c"'):
            return ("bytes", unescape(x[2:-1]))
        if x == "splat":
            self.expect("(")
            et = self.type()
            v = self.value(et)
            self.expect(")")
            r = 0
            for i in range(t[1]):
                r |= v << (i * tbits(et))
            return r
        return self.constexpr(x, t)

    def constexpr(self, x, t):
        if x == "getelementptr":
            while self.peek() in FLAGS:
                self.next()
                if self.peek() == "(" and self.t[self.i - 1] == "inrange":
                    self.skip_parens()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.accept(","):
                it = self.type()
                idx.append(self.value(it) if True else None)
                idx[-1] = (idx[-1], tbits(it))
            self.expect(")")
            addr = base
            cur = None
            for k, (v, w) in enumerate(idx):
                if v >> (w - 1):
                    v -= 1 << w
                if k == 0:
                    addr += v * tsize(bt)
                    cur = bt
                else:
                    addr += field_off(cur, v)
                    cur = cur[2] if cur[0] in ("arr", "vec") else cur[1][v]
            return addr & ((1 << 64) - 1)
        if x in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "trunc"):
            self.expect("(")
            ft = self.type()
            v = self.value(ft)
            self.expect("to")
            tt = self.type()
            self.expect(")")
            return v & ((1 << tbits(tt)) - 1)
        if x in ("add", "sub", "mul", "xor", "and", "or", "shl", "lshr"):
            while self.peek() in FLAGS:
                self.next()
            self.expect("(")
            ft = self.type()
            a = self.value(ft)
            self.expect(",")
            ft = self.type()
            b = self.value(ft)
            self.expect(")")
            m = (1 << tbits(ft)) - 1
            return {"add": a + b, "sub": a - b, "mul": a * b, "xor": a ^ b, "and": a & b, "or": a | b,
                    "shl": a << b if x == "shl" else 0, "lshr": a >> b if x == "lshr" else 0}[x] & m
        raise LLError("constant %r near %r" % (x, self.t[max(0, self.i - 5):self.i + 8]))


def zero_of(t):
    if t[0] == "st":
        return ("agg", tuple(zero_of(f) for f in t[1]))
    if t[0] == "arr":
        return ("agg", tuple(zero_of(t[2]) for _ in range(t[1])))
    return 0


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\" and s[i + 1] == "\\":
            out.append(0x5C)
            i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def unq(name):
    """'@"foo"' -> 'foo'"""
    n = name[1:]
    return n[1:-1] if n.startswith('"') else n


class Function:
    __slots__ = ("name", "params", "ret", "blocks", "entry", "text", "nins")


GBASE = 0x0100  # page ids for globals  (page << 32)
FBASE = 0x8000  # page ids for functions


class Module:
    def __init__(self, path):
        self.path = path
        self.ftext = {}
        self.gtext = {}
        self.declares = set()
        self.types = {}
        self.funcs = {}
        self.gaddr = {}
        self.gname = {}
        self.faddr = {}
        self.fname = {}
        self.ginit = {}
        self.alias = {}
        self._scan()

    def _scan(self):
        cur = None
        buf = None
        with open(self.path) as fh:
            for line in fh:
                if cur is not None:
                    if line.startswith("}"):
                        self.ftext[cur] = buf
                        cur = None
                    else:
                        buf.append(line)
                    continue
                c = line[0]
                if c == "d":
                    if line.startswith("define"):
                        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', line)
                        cur = unq("@" + m.group(1))
                        buf = [line]
                    elif line.startswith("declare"):
                        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', line)
                        self.declares.add(unq("@" + m.group(1)))
                elif c == "@":
                    m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', line)
                    self.gtext[unq("@" + m.group(1))] = m.group(2)
                elif c == "%":
                    m = re.match(r'(%\S+) = type (.*)', line)
                    if m:
                        self.types[m.group(1)] = m.group(2)

    def named_type(self, x):
        t = self.types[x]
        if isinstance(t, str):
            t = P(tokenize(t), self).type()
            self.types[x] = t
        return t

    def global_addr(self, tok):
        name = unq(tok)
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.ftext or name in self.declares:
            a = (FBASE + len(self.faddr)) << 32
            self.faddr[name] = a
            self.fname[a] = name
        elif name in self.gtext:
            txt = self.gtext[name]
            if re.match(r"(?:[\w]+ )*alias ", txt):
                m = re.search(r"ptr (@\S+)", txt)
                a = self.global_addr(m.group(1))
            else:
                a = (GBASE + len(self.gname)) << 32
                self.gname[a] = name
        else:
            a = (FBASE + len(self.faddr)) << 32
            self.faddr[name] = a
            self.fname[a] = name
        self.gaddr[name] = a
        return a

    def global_init(self, name):
        """-> (size, bytes-cells list, is_constant)"""
        r = self.ginit.get(name)
        if r is not None:
            return r
        txt = self.gtext[name]
        toks = tokenize(txt)
        p = P(toks, self)
        const = False
        external = False
        while True:
            x = p.peek()
            if x == "constant":
                const = True
                p.next()
                break
            if x == "global":
                p.next()
                break
            if x == "thread_local":
                p.next()
                if p.peek() == "(":
                    p.skip_parens()
                continue
            if x in ("external", "extern_weak"):
                external = True
            p.next()
        t = p.type()
        size = tsize(t)
        cells = [0] * size
        if not external:
            v = p.value(t)
            self._fill(cells, 0, t, v)
        self.ginit[name] = (size, cells, const)
        return self.ginit[name]

    def _fill(self, cells, off, t, v):
        k = t[0]
        if isinstance(v, tuple) and v[0] == "bytes":
            cells[off:off + len(v[1])] = list(v[1])
            return
        if isinstance(v, tuple) and v[0] == "agg":
            for i, x in enumerate(v[1]):
                et = t[2] if k == "arr" else t[1][i]
                self._fill(cells, off + field_off(t, i), et, x)
            return
        if v == 0:
            return
        n = tstore(t)
        cells[off:off + n] = list(v.to_bytes(n, "little"))

    # ------------------------------------------------------------ functions
    def function(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = self._parse(name)
            self.funcs[name] = f
        return f

    def _parse(self, name):
        lines = self.ftext[name]
        f = Function()
        f.name = name
        head = lines[0]
        toks = tokenize(head[:head.rindex("{")])
        p = P(toks, self)
        p.next()
        # skip linkage etc. up to the return type
        while True:
            x = p.peek()
            if x in ("internal", "private", "external", "linkonce_odr", "weak", "weak_odr", "linkonce", "hidden",
                     "protected", "default", "dso_local", "unnamed_addr", "local_unnamed_addr",
                     "available_externally") or x in CC:
                p.next()
                continue
            j = p.i
            p.attrs()
            if p.i == j:
                break
        f.ret = p.type()
        p.next()  # name
        p.expect("(")
        f.params = []
        n = 0
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    p.expect(")")
                    break
                t = p.type()
                p.attrs()
                if p.peek()[0] == "%":
                    pn = p.next()
                else:
                    pn = "%%%d" % n
                n += 1
                f.params.append((t, pn))
                if p.accept(")"):
                    break
                p.expect(",")
        f.blocks = {}
        f.nins = 0
        cur = None
        nargs_unnamed = sum(1 for _, pn in f.params if pn[1:].isdigit())
        implicit = "%%%d" % nargs_unnamed
        i = 1
        entry = None
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ";" or s[0] == "#":
                continue
            if ln[0] not in " \t":
                m = re.match(r'("[^"]*"|[-\w.$]+):', ln)
                if m:
                    lab = m.group(1)
                    cur = []
                    f.blocks["%" + lab] = cur
                    if entry is None:
                        entry = "%" + lab
                    continue
            if cur is None:
                cur = []
                f.blocks[implicit] = cur
                entry = implicit
            if " invoke " in " " + s[:60] and " to label " not in s:
                s += " " + lines[i].strip()
                i += 1
            if s.startswith("switch") and not s.rstrip().endswith("]") and "[" in s:
                while True:
                    ln = lines[i]
                    i += 1
                    s += " " + ln.strip()
                    if ln.strip().startswith("]"):
                        break
            if s.startswith(("cleanup", "filter", "catch")):
                continue
            cur.append(self._ins(s))
            f.nins += 1
        f.entry = entry
        # split phis
        for lab, ins in f.blocks.items():
            nphi = 0
            while nphi < len(ins) and ins[nphi][0] == "phi":
                nphi += 1
            f.blocks[lab] = (ins[:nphi], ins[nphi:])
        return f

    def _ins(self, s):
        # cut metadata attachments: ", !name !123" at the end
        toks = tokenize(s)
        p = P(toks, self)
        dst = None
        if toks[0][0] == "%" and len(toks) > 1 and toks[1] == "=":
            dst = toks[0]
            p.i = 2
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "call":
            return self._call(p, dst)
        if op == "invoke":
            c = self._call(p, dst)
            while p.next() != "to":
                pass
            p.expect("label")
            return ("invoke", c, p.next())
        if op in ("landingpad", "resume"):
            return ("unsupported", op, s)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv"):
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return (op, dst, t, a, b)
        if op == "icmp":
            while p.peek() in FLAGS:
                p.next()
            cc = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return ("icmp", dst, cc, t, a, b)
        if op == "fcmp":
            while p.peek() in FLAGS:
                p.next()
            cc = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return ("fcmp", dst, cc, t, a, b)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi",
                  "fpext", "fptrunc"):
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect("to")
            t2 = p.type()
            return (op, dst, t, v, t2)
        if op == "getelementptr":
            while p.peek() in FLAGS:
                p.next()
            bt = p.type()
            p.expect(",")
            pt = p.type()
            base = p.value(pt)
            idx = []
            while p.accept(","):
                if p.peek()[0] == "!":
                    break
                it = p.type()
                idx.append((p.value(it), tbits(it)))
            # precompute: list of (value,width,scale) + constant
            const = 0
            dyn = []
            cur = None
            for k, (v, w) in enumerate(idx):
                if k == 0:
                    sc = tsize(bt)
                    cur = bt
                else:
                    if cur[0] in ("arr", "vec"):
                        sc = tsize(cur[2])
                        cur = cur[2]
                    else:
                        const += field_off(cur, v)
                        cur = cur[1][v]
                        continue
                if isinstance(v, int):
                    if v >> (w - 1):
                        v -= 1 << w
                    const += v * sc
                else:
                    dyn.append((v, w, sc))
            return ("gep", dst, base, const & ((1 << 64) - 1), dyn)
        if op == "load":
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            p.expect(",")
            pt = p.type()
            a = p.value(pt)
            return ("load", dst, t, tstore(t), a)
        if op == "store":
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect(",")
            pt = p.type()
            a = p.value(pt)
            return ("store", t, tstore(t), v, a)
        if op == "alloca":
            t = p.type()
            n = 1
            if p.accept(","):
                if p.peek() not in ("align",) and p.peek()[0] != "!":
                    nt = p.type()
                    n = p.value(nt)
            return ("alloca", dst, tsize(t), n)
        if op == "br":
            if p.accept("label"):
                return ("jmp", p.next())
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = p.next()
            p.expect(",")
            p.expect("label")
            b = p.next()
            return ("br", c, a, b)
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.expect("label")
            d = p.next()
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct = p.type()
                cv = p.value(ct)
                p.expect(",")
                p.expect("label")
                cases.append((cv, p.next()))
            return ("switch", t, v, d, cases)
        if op == "phi":
            t = p.type()
            inc = {}
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                inc[p.next()] = v
                p.expect("]")
                if not p.accept(","):
                    break
                if p.peek()[0] == "!":
                    break
            return ("phi", dst, t, inc)
        if op == "select":
            while p.peek() in FLAGS:
                p.next()
            ct = p.type()
            c = p.value(ct)
            p.expect(",")
            t = p.type()
            a = p.value(t)
            p.expect(",")
            t = p.type()
            b = p.value(t)
            return ("select", dst, t, c, a, b, ct)
        if op == "ret":
            t = p.type()
            if t[0] == "void":
                return ("ret", t, None)
            return ("ret", t, p.value(t))
        if op == "unreachable":
            return ("unreachable",)
        if op == "extractvalue":
            t = p.type()
            v = p.value(t)
            idx = []
            while p.accept(","):
                if p.peek()[0] == "!":
                    break
                idx.append(int(p.next()))
            return ("extractvalue", dst, v, idx)
        if op == "insertvalue":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            et = p.type()
            e = p.value(et)
            idx = []
            while p.accept(","):
                if p.peek()[0] == "!":
                    break
                idx.append(int(p.next()))
            return ("insertvalue", dst, t, v, e, idx)
        if op == "freeze":
            t = p.type()
            return ("freeze", dst, p.value(t))
        if op == "fneg":
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            return ("fneg", dst, t, p.value(t))
        if op == "fence":
            return ("nop",)
        if op in ("extractelement", "insertelement", "shufflevector", "cmpxchg", "atomicrmw", "landingpad", "resume",
                  "invoke", "indirectbr", "cleanuppad", "cleanupret"):
            if op == "cmpxchg":
                while p.peek() in FLAGS or p.peek() == "weak":
                    p.next()
                p.type()
                a = p.value(("ptr",))
                p.expect(",")
                t = p.type()
                c = p.value(t)
                p.expect(",")
                p.type()
                n = p.value(t)
                return ("cmpxchg", dst, t, a, c, n)
            if op == "atomicrmw":
                while p.peek() in FLAGS:
                    p.next()
                o = p.next()
                p.type()
                a = p.value(("ptr",))
                p.expect(",")
                t = p.type()
                v = p.value(t)
                return ("atomicrmw", dst, o, t, a, v)
            if op == "extractelement":
                t = p.type()
                v = p.value(t)
                p.expect(",")
                it = p.type()
                return ("extractelement", dst, t, v, p.value(it))
            if op == "insertelement":
                t = p.type()
                v = p.value(t)
                p.expect(",")
                et = p.type()
                e = p.value(et)
                p.expect(",")
                it = p.type()
                return ("insertelement", dst, t, v, e, p.value(it))
            return ("unsupported", op, s)
        return ("unsupported", op, s)

    def _call(self, p, dst):
        while p.peek() in FLAGS or p.peek() in CC:
            p.next()
        p.attrs()
        rt = p.type()
        if rt[0] == "fn":
            rt = rt[1]
        if p.peek() == "asm":
            return ("asm", dst, " ".join(p.t))
        callee = p.next()
        if callee[0] == "@":
            callee = ("f", unq(callee))
        elif callee[0] == "%":
            callee = ("r", callee)
        else:
            raise LLError("callee %r" % callee)
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                t = p.type()
                if t[0] == "metadata":
                    args.append((t, 0))
                    d = 0
                    while True:
                        x = p.peek()
                        if d == 0 and x in (",", ")"):
                            break
                        if x in ("(", "{"):
                            d += 1
                        if x in (")", "}"):
                            d -= 1
                        p.next()
                else:
                    p.attrs()
                    args.append((t, p.value(t)))
                if p.accept(")"):
                    break
                p.expect(",")
        return ("call", dst, rt, callee, args)
