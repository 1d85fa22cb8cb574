"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits from /repo's sources.

Only what the VC generator needs is parsed, on demand: a function body is parsed the first time it is executed.
Anything not understood raises Unsupported (a tool limit, never a verdict)."""
import re, struct, subprocess
from fractions import Fraction


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "_s")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._s = None

    def __repr__(self):
        return f"Ty({self.k},{self.a},{self.b})"


I1, I8, I16, I32, I64, I128 = [Ty("i", n) for n in (1, 8, 16, 32, 64, 128)]
DBL, FLT, PTR, VOID, FP80 = Ty("double"), Ty("float"), Ty("ptr"), Ty("void"), Ty("x86_fp80")
META, LABEL, TOKEN = Ty("metadata"), Ty("label"), Ty("token")
_prim = {"i1": I1, "i8": I8, "i16": I16, "i32": I32, "i64": I64, "i128": I128, "double": DBL, "float": FLT,
         "ptr": PTR, "void": VOID, "x86_fp80": FP80, "metadata": META, "label": LABEL, "token": TOKEN}

_tok = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<gl>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<lo>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<at>\#\d+)
 | (?P<cd>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_.][-a-zA-Z_.0-9$]*)
 | (?P<p>[=,*(){}\[\]<>|:])
 )''', re.X)


def tokenize(s):
    out = []
    pos, n = 0, len(s)
    while pos < n:
        m = _tok.match(s, pos)
        if not m:
            if s[pos:].strip() == "" or s[pos:].lstrip().startswith(";"):
                break
            raise Unsupported(f"token at {s[pos:pos+60]!r}")
        pos = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


class TS:
    """token stream"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, d=0):
        j = self.i + d
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, d=0):
        j = self.i + d
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported(f"expected {x} got {self.peek()} in {' '.join(t[1] for t in self.t)[:200]}")

    def done(self):
        return self.i >= len(self.t)

    # ---- types
    def is_type(self):
        k, v = self.kind(), self.peek()
        return v in _prim or v in ("[", "{", "<") or (k == "lo" and v in self.mod.types)

    def type(self):
        k, v = self.kind(), self.next()
        if v in _prim:
            t = _prim[v]
        elif k == "id" and re.fullmatch(r"i\d+", v):
            t = Ty("i", int(v[1:]))
        elif v == "[":
            n = int(self.next())
            self.need("x")
            e = self.type()
            self.need("]")
            t = Ty("arr", n, e)
        elif v == "{":
            f = []
            if not self.eat("}"):
                while True:
                    f.append(self.type())
                    if self.eat("}"):
                        break
                    self.need(",")
            t = Ty("struct", f, False)
        elif v == "<":
            if self.eat("{"):
                f = []
                if not self.eat("}"):
                    while True:
                        f.append(self.type())
                        if self.eat("}"):
                            break
                        self.need(",")
                self.need(">")
                t = Ty("struct", f, True)
            else:
                n = int(self.next())
                self.need("x")
                e = self.type()
                self.need(">")
                t = Ty("vec", n, e)
        elif k == "lo":
            t = Ty("named", v[1:].strip('"'))
        else:
            raise Unsupported(f"type {v}")
        return t

    # ---- attributes
    _attrs = {"noundef", "nonnull", "noalias", "writable", "dead_on_unwind", "zeroext", "signext", "returned",
              "nocapture", "readonly", "readnone", "writeonly", "immarg", "inreg", "nofree", "nonlazybind", "inalloca",
              "swiftself", "nest", "noreturn", "nounwind", "allocptr", "allocalign"}

    def attrs(self):
        out = {}
        while True:
            v = self.peek()
            if v in self._attrs:
                self.next()
                out[v] = True
            elif v in ("align",) and self.kind(1) == "num":
                self.next(); self.next()
            elif v in ("align", "dereferenceable", "dereferenceable_or_null", "alignstack", "captures", "range", "memory"):
                self.next()
                self.need("(")
                d = 1
                while d:
                    w = self.next()
                    d += (w == "(") - (w == ")")
            elif v in ("sret", "byval", "byref", "elementtype", "preallocated"):
                self.next()
                self.need("(")
                out[v] = self.type()
                self.need(")")
            else:
                return out


# ---------------------------------------------------------------- constants / operands
class Op:
    """operand: kind in reg, int, fp, null, undef, zero, global, cexpr, agg, meta"""
    __slots__ = ("k", "v", "ty")

    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return f"{self.k}:{self.v}"


def hexfp(s):
    if s.startswith("0xK"):
        h = s[3:]
        se = int(h[:4], 16)
        m = int(h[4:], 16)
        sg = -1 if se & 0x8000 else 1
        e = se & 0x7fff
        if m == 0:
            return Fraction(0)
        return sg * Fraction(m) * Fraction(2) ** (e - 16383 - 63)
    d = struct.unpack(">d", int(s[2:], 16).to_bytes(8, "big"))[0]
    if d != d or d in (float("inf"), float("-inf")):
        return d
    return Fraction(d)


def parse_value(ts, ty):
    k, v = ts.kind(), ts.peek()
    if k == "lo":
        ts.next()
        return Op("reg", v[1:], ty)
    if k == "gl":
        ts.next()
        return Op("global", v[1:].strip('"'), ty)
    if k == "num":
        ts.next()
        if ty.k in ("double", "float", "x86_fp80"):
            return Op("fp", Fraction(v) if "e" not in v.lower() else Fraction(float(v)), ty)
        return Op("int", int(v), ty)
    if k == "hex":
        ts.next()
        return Op("fp", hexfp(v), ty)
    if k == "md":
        ts.next()
        if ts.eat("("):
            d = 1
            while d:
                w = ts.next()
                d += (w == "(") - (w == ")")
        elif ts.peek() == "{":
            ts.next()
            while ts.next() != "}":
                pass
        return Op("meta", v, ty)
    if v in ("true", "false"):
        ts.next()
        return Op("int", int(v == "true"), ty)
    if v == "null":
        ts.next()
        return Op("null", None, ty)
    if v in ("undef", "poison"):
        ts.next()
        return Op("undef", None, ty)
    if v == "zeroinitializer":
        ts.next()
        return Op("zero", None, ty)
    if k == "str":
        ts.next()
        raw = v[1:] if v[0] == "c" else v
        raw = raw[1:-1]
        b = bytearray()
        i = 0
        while i < len(raw):
            if raw[i] == "\\":
                if raw[i + 1] == "\\":
                    b.append(92); i += 2
                else:
                    b.append(int(raw[i + 1:i + 3], 16)); i += 3
            else:
                b.append(ord(raw[i])); i += 1
        return Op("str", bytes(b), ty)
    if v in ("[", "{", "<"):
        o = ts.next()
        packed = False
        if o == "<" and ts.peek() == "{":
            ts.next(); packed = True; o = "{"
        close = {"[": "]", "{": "}", "<": ">"}[o]
        els = []
        if not ts.eat(close):
            while True:
                t = ts.type()
                els.append(parse_value(ts, t))
                if ts.eat(close):
                    break
                ts.need(",")
        if packed:
            ts.need(">")
        return Op("agg", els, ty)
    if v in ("getelementptr", "ptrtoint", "inttoptr", "bitcast", "sub", "add", "trunc", "addrspacecast", "icmp"):
        ts.next()
        while ts.peek() in ("inbounds", "nuw", "nsw"):
            ts.next()
        ts.need("(")
        if v == "getelementptr":
            st = ts.type()
            ts.need(",")
            ops = []
            while True:
                while ts.peek() == "inrange":
                    ts.next()
                t = ts.type()
                ops.append(parse_value(ts, t))
                if ts.eat(")"):
                    break
                ts.need(",")
            return Op("cexpr", ("gep", st, ops), ty)
        if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast"):
            t = ts.type()
            o = parse_value(ts, t)
            ts.need("to")
            t2 = ts.type()
            ts.need(")")
            return Op("cexpr", (v, o, t2), ty)
        ops = []
        while True:
            t = ts.type()
            ops.append(parse_value(ts, t))
            if ts.eat(")"):
                break
            ts.need(",")
        return Op("cexpr", (v, ops), ty)
    if v in ("blockaddress", "dso_local_equivalent", "no_cfi"):
        raise Unsupported(v)
    raise Unsupported(f"value {v} ({k}) of {ty}")


class Ins:
    __slots__ = ("op", "res", "a", "dbg", "txt")

    def __init__(self, op, res, a, dbg=None, txt=""):
        self.op, self.res, self.a, self.dbg, self.txt = op, res, a, dbg, txt

    def __repr__(self):
        return f"{self.res}={self.op} {self.a}"


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, attrs, regname)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.entry = None
        self.var_of_reg = {}  # alloca register -> list of source variable names
        self.linkage = ""
        self.dbg = None


class Module:
    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        self.types = {}
        self.fn_span = {}
        self.decl = {}
        self.glob_txt = {}
        self.fns = {}
        self.globs = {}
        self.md = {}
        self._scan()
        self._layout = {}

    def _scan(self):
        lines = self.text.split("\n")
        self.lines = lines
        i, n = 0, len(lines)
        reT = re.compile(r'^%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = type (.*)$')
        reG = re.compile(r'^@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$')
        reN = re.compile(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(')
        tt = {}
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                name = reN.search(l).group(1).strip('"')
                j = i
                while lines[j] != "}":
                    j += 1
                self.fn_span[name] = (i, j)
                i = j
            elif l.startswith("declare "):
                self.decl[reN.search(l).group(1).strip('"')] = i
            elif l.startswith("%"):
                m = reT.match(l)
                if m:
                    tt[m.group(1).strip('"')] = m.group(2)
            elif l.startswith("@"):
                m = reG.match(l)
                if m:
                    self.glob_txt[m.group(1).strip('"')] = m.group(2)
            elif l.startswith("!"):
                k = l.find(" = ")
                if k > 0:
                    self.md[l[:k]] = l[k + 3:]
            i += 1
        for k in tt:
            self.types["%" + k] = None
            self.types['%"' + k + '"'] = None
        self.type_txt = tt
        self.type_cache = {}

    def resolve(self, ty):
        while ty.k == "named":
            n = ty.a
            if n not in self.type_cache:
                txt = self.type_txt[n]
                if txt.strip() == "opaque":
                    self.type_cache[n] = Ty("opaque")
                else:
                    self.type_cache[n] = TS(tokenize(txt), self).type()
            ty = self.type_cache[n]
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == "i":
            return min(16, max(1, 1 << ((ty.a + 7) // 8 - 1).bit_length()))
        if ty.k in ("double", "ptr"):
            return 8
        if ty.k == "float":
            return 4
        if ty.k == "x86_fp80":
            return 16
        if ty.k == "arr":
            return self.align(ty.b)
        if ty.k == "vec":
            return self.size(ty)
        if ty.k == "struct":
            return 1 if ty.b or not ty.a else max(self.align(f) for f in ty.a)
        raise Unsupported(f"align {ty}")

    def size(self, ty):
        ty = self.resolve(ty)
        if ty._s is not None:
            return ty._s
        if ty.k == "i":
            s = 1 << max(0, ((ty.a + 7) // 8 - 1).bit_length())
        elif ty.k in ("double", "ptr"):
            s = 8
        elif ty.k == "float":
            s = 4
        elif ty.k == "x86_fp80":
            s = 16
        elif ty.k == "arr" or ty.k == "vec":
            s = ty.a * self.size(ty.b)
        elif ty.k == "struct":
            o = 0
            for f in ty.a:
                if not ty.b:
                    al = self.align(f)
                    o = (o + al - 1) // al * al
                o += self.size(f)
            if not ty.b and ty.a:
                al = self.align(ty)
                o = (o + al - 1) // al * al
            s = o
        else:
            raise Unsupported(f"size {ty}")
        ty._s = s
        return s

    def field_off(self, ty, idx):
        ty = self.resolve(ty)
        o = 0
        for k, f in enumerate(ty.a):
            if not ty.b:
                al = self.align(f)
                o = (o + al - 1) // al * al
            if k == idx:
                return o
            o += self.size(f)
        raise Unsupported("field index")

    # ------------------------------------------------------------ debug info: struct member offsets
    def dbg_members(self, tyname, ident=None):
        """name -> byte offset for the data members of struct `tyname` (from DWARF metadata)."""
        pat = re.compile(r'DICompositeType\(tag: DW_TAG_(?:structure|class)_type, name: "%s",' % re.escape(tyname))
        for k, v in self.md.items():
            if pat.search(v):
                if ident is not None and f'identifier: "{ident}"' not in v:
                    continue
                m = re.search(r"elements: (!\d+)", v)
                if not m:
                    continue
                out = {}
                for e in re.findall(r"!\d+", self.md[m.group(1)]):
                    t = self.md[e]
                    if "tag: DW_TAG_member" in t and "DIFlagStaticMember" not in t:
                        nm = re.search(r'name: "([^"]*)"', t)
                        off = re.search(r"offset: (\d+)", t)
                        if nm:
                            out[nm.group(1)] = int(off.group(1)) // 8 if off else 0
                return out
        return {}

    # ------------------------------------------------------------ globals
    def glob(self, name):
        if name in self.globs:
            return self.globs[name]
        txt = self.glob_txt[name]
        txt = re.sub(r", !dbg !\d+", "", txt)
        txt = re.sub(r", comdat(\([^)]*\))?", "", txt)
        txt = re.sub(r", (section|partition) \"[^\"]*\"", "", txt)
        ts = TS(tokenize(txt), self)
        const = False
        ext = False
        while not ts.is_type():
            v = ts.next()
            if v == "external":
                ext = True
            if v == "constant":
                const = True
            if v in ("alias", "ifunc"):
                raise Unsupported("alias global")
            if v in ("thread_local", "dso_local") and ts.peek() == "(":
                while ts.next() != ")":
                    pass
        ty = ts.type()
        init = None
        if not ext and not ts.done() and ts.peek() != ",":
            init = parse_value(ts, ty)
        self.globs[name] = (ty, init, const)
        return self.globs[name]

    # ------------------------------------------------------------ functions
    def has_body(self, name):
        return name in self.fn_span

    def alias_of(self, name):
        t = self.glob_txt.get(name)
        if t:
            m = re.search(r"\balias\b.*@(\"[^\"]*\"|[-a-zA-Z$._0-9]+)\s*$", re.sub(r", !dbg.*", "", t))
            if m:
                return m.group(1).strip('"')
        return None

    def fn(self, name):
        if name in self.fns:
            return self.fns[name]
        a = self.alias_of(name)
        if a:
            return self.fn(a)
        s, e = self.fn_span[name]
        f = Fn(name)
        hdr = self.lines[s]
        m = re.search(r"!dbg (!\d+)", hdr)
        f.dbg = m.group(1) if m else None
        ts = TS(tokenize(hdr[:hdr.rindex("{")]), self)
        ts.next()
        while True:
            a = ts.attrs()
            if ts.kind() == "gl":
                break
            if ts.is_type():
                f.ret = ts.type()
            else:
                ts.next()
        ts.next()
        ts.need("(")
        if not ts.eat(")"):
            while True:
                if ts.peek() == "...":
                    ts.next()
                else:
                    t = ts.type()
                    a = ts.attrs()
                    r = ts.next()[1:] if ts.kind() == "lo" else None
                    f.params.append((t, a, r))
                if ts.eat(")"):
                    break
                ts.need(",")
        # body
        nparam = len(f.params)
        cur = None
        implicit = str(nparam)
        for q in range(nparam):
            if f.params[q][2] is None:
                raise Unsupported("unnamed parameter")
        i = s + 1
        cur = implicit
        blk = []
        f.entry = cur
        f.blocks[cur] = blk
        f.order.append(cur)
        relab = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')
        first = True
        while i < e:
            l = self.lines[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            if not l.startswith(" "):
                m = relab.match(l)
                if m:
                    cur = m.group(1).strip('"')
                    if first and not blk:
                        del f.blocks[implicit]
                        f.order = []
                        f.entry = cur
                    blk = []
                    f.blocks[cur] = blk
                    f.order.append(cur)
                    first = False
                    continue
            first = False
            # multi-line switch / invoke / landingpad
            st = l.strip()
            if st.startswith("switch ") and not st.rstrip().split(", !")[0].endswith("]"):
                while "]" not in self.lines[i]:
                    st += " " + self.lines[i].strip(); i += 1
                st += " " + self.lines[i].strip(); i += 1
            if re.match(r"(%\S+ = )?invoke ", st):
                st += " " + self.lines[i].strip(); i += 1
            if re.match(r"%\S+ = landingpad ", st):
                while i < e and re.match(r"\s+(cleanup|catch|filter)\b", self.lines[i]):
                    st += " " + self.lines[i].strip(); i += 1
            blk.append(st)
        # parse lazily: instructions parsed now (functions are small)
        for b in f.order:
            f.blocks[b] = [self.parse_ins(x, f) for x in f.blocks[b]]
        self.fns[name] = f
        return f

    def parse_ins(self, st, f):
        dbg = None
        m = re.search(r", !dbg (!\d+)", st)
        if m:
            dbg = m.group(1)
        core = re.sub(r"(, ![a-zA-Z_.]+ ![0-9]+)+\s*$", "", st)
        core = re.sub(r"(, ![a-zA-Z_.]+ ![0-9]+)+(?=, ![a-zA-Z_.]+ !\{)", "", core)
        core = re.sub(r",? #\d+\b", "", core)
        try:
            return self._parse_ins(core, dbg, f, st)
        except Unsupported as ex:
            return Ins("unsupported", None, str(ex), dbg, st)
        except (IndexError, KeyError, ValueError) as ex:
            return Ins("unsupported", None, f"parse: {ex!r}", dbg, st)

    def _parse_ins(self, core, dbg, f, st):
        ts = TS(tokenize(core), self)
        res = None
        if ts.kind() == "lo" and ts.peek(1) == "=":
            res = ts.next()[1:]
            ts.next()
        op = ts.next()
        if op in ("tail", "musttail", "notail"):
            op = ts.next()

        def val():
            t = ts.type()
            return parse_value(ts, t)

        if op == "alloca":
            t = ts.type()
            n = None
            if ts.eat(","):
                if ts.is_type():
                    n = val()
            return Ins("alloca", res, (t, n), dbg, st)
        if op == "load":
            if ts.peek() == "atomic": ts.next()
            if ts.peek() == "volatile": ts.next()
            t = ts.type()
            ts.need(",")
            return Ins("load", res, (t, val()), dbg, st)
        if op == "store":
            if ts.peek() == "atomic": ts.next()
            if ts.peek() == "volatile": ts.next()
            v = val()
            ts.need(",")
            return Ins("store", res, (v, val()), dbg, st)
        if op == "getelementptr":
            while ts.peek() in ("inbounds", "nuw", "nusw"):
                ts.next()
            t = ts.type()
            ts.need(",")
            p = val()
            idx = []
            while ts.eat(","):
                idx.append(val())
            return Ins("gep", res, (t, p, idx), dbg, st)
        if op in ("call", "invoke"):
            while ts.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc", "coldcc"):
                ts.next()
            ts.attrs()
            rt = ts.type()
            if ts.peek() == "(":   # full function type (varargs)
                d = 0
                while True:
                    w = ts.next()
                    d += (w == "(") - (w == ")")
                    if d == 0:
                        break
            if ts.peek() == "asm":
                raise Unsupported("inline asm")
            cal = parse_value(ts, PTR)
            ts.need("(")
            args = []
            if not ts.eat(")"):
                while True:
                    t = ts.type()
                    a = ts.attrs()
                    if t.k == "metadata":
                        # metadata ptr %5 / metadata !123 / metadata !DIExpression()
                        if ts.is_type():
                            t2 = ts.type()
                            args.append((parse_value(ts, t2), {"meta": True}))
                        else:
                            args.append((parse_value(ts, t), {"meta": True}))
                    else:
                        args.append((parse_value(ts, t), a))
                    if ts.eat(")"):
                        break
                    ts.need(",")
            if cal.k == "global" and cal.v.startswith("llvm.dbg."):
                if cal.v == "llvm.dbg.declare" and args[0][0].k == "reg":
                    md = self.md.get(args[1][0].v, "")
                    nm = re.search(r'name: "([^"]*)"', md)
                    ar = re.search(r"arg: (\d+)", md)
                    if nm:
                        f.var_of_reg.setdefault(args[0][0].v, []).append((nm.group(1), int(ar.group(1)) if ar else 0))
                return Ins("nop", None, None, dbg, st)
            if op == "invoke":
                while ts.peek() != "to":
                    ts.next()
                ts.need("to")
                ts.need("label")
                nl = ts.next()[1:]
                ts.need("unwind")
                ts.need("label")
                ul = ts.next()[1:]
                return Ins("invoke", res, (rt, cal, args, nl.strip('"'), ul.strip('"')), dbg, st)
            return Ins("call", res, (rt, cal, args), dbg, st)
        if op == "br":
            if ts.eat("label"):
                return Ins("br", None, (ts.next()[1:].strip('"'),), dbg, st)
            c = val()
            ts.need(","); ts.need("label")
            a = ts.next()[1:].strip('"')
            ts.need(","); ts.need("label")
            b = ts.next()[1:].strip('"')
            return Ins("cbr", None, (c, a, b), dbg, st)
        if op == "switch":
            v = val()
            ts.need(","); ts.need("label")
            d = ts.next()[1:].strip('"')
            ts.need("[")
            cases = []
            while not ts.eat("]"):
                c = val()
                ts.need(","); ts.need("label")
                cases.append((c, ts.next()[1:].strip('"')))
            return Ins("switch", None, (v, d, cases), dbg, st)
        if op == "ret":
            if ts.eat("void"):
                return Ins("ret", None, None, dbg, st)
            return Ins("ret", None, val(), dbg, st)
        if op in ("icmp", "fcmp"):
            while ts.peek() in ("fast", "nnan", "ninf", "nsz", "samesign"):
                ts.next()
            p = ts.next()
            a = val()
            ts.need(",")
            b = parse_value(ts, a.ty)
            return Ins(op, res, (p, a, b), dbg, st)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = []
            while ts.peek() in ("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "contract", "arcp", "afn", "reassoc"):
                fl.append(ts.next())
            a = val()
            ts.need(",")
            b = parse_value(ts, a.ty)
            return Ins("bin", res, (op, a, b, fl), dbg, st)
        if op == "fneg":
            return Ins("fneg", res, (val(),), dbg, st)
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast",
                  "ptrtoint", "inttoptr", "addrspacecast"):
            while ts.peek() in ("nneg", "nuw", "nsw"):
                ts.next()
            a = val()
            ts.need("to")
            t = ts.type()
            return Ins("cast", res, (op, a, t), dbg, st)
        if op == "phi":
            t = ts.type()
            inc = []
            while True:
                ts.need("[")
                v = parse_value(ts, t)
                ts.need(",")
                inc.append((v, ts.next()[1:].strip('"')))
                ts.need("]")
                if not ts.eat(","):
                    break
            return Ins("phi", res, (t, inc), dbg, st)
        if op == "select":
            c = val(); ts.need(",")
            a = val(); ts.need(",")
            b = val()
            return Ins("select", res, (c, a, b), dbg, st)
        if op == "extractvalue":
            a = val()
            idx = []
            while ts.eat(","):
                idx.append(int(ts.next()))
            return Ins("extractvalue", res, (a, idx), dbg, st)
        if op == "insertvalue":
            a = val(); ts.need(",")
            b = val()
            idx = []
            while ts.eat(","):
                idx.append(int(ts.next()))
            return Ins("insertvalue", res, (a, b, idx), dbg, st)
        if op == "unreachable":
            return Ins("unreachable", None, None, dbg, st)
        if op == "freeze":
            return Ins("freeze", res, (val(),), dbg, st)
        if op == "atomicrmw":
            if ts.peek() == "volatile": ts.next()
            o = ts.next()
            p = val(); ts.need(",")
            v = val()
            return Ins("atomicrmw", res, (o, p, v), dbg, st)
        if op in ("resume", "landingpad"):
            return Ins(op, res, None, dbg, st)
        if op == "fence":
            return Ins("nop", None, None, dbg, st)
        raise Unsupported(f"instruction {op}")

    def line_of(self, dbg):
        t = self.md.get(dbg or "", "")
        m = re.search(r"line: (\d+)", t)
        return int(m.group(1)) if m else 0


_dem = {}


def demangle(names):
    need = [n for n in names if n not in _dem]
    if need:
        out = subprocess.run(["c++filt"], input="\n".join(need), capture_output=True, text=True).stdout.split("\n")
        for a, b in zip(need, out):
            _dem[a] = b
    return [_dem[n] for n in names]
