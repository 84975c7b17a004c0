"""Reader for the textual LLVM IR that clang and rustc emit: types, globals, functions, instructions."""
import re

TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"])*")
  | (?P<name>[%@](?:"[^"]*"|[-A-Za-z$._0-9]+))
  | (?P<meta>![A-Za-z0-9_.]*)
  | (?P<attr>\#[0-9]+)
  | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<num>-?[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?)
  | (?P<word>[A-Za-z_$.][-A-Za-z0-9_$.]*)
  | (?P<p><\{|\}>|\.\.\.|[(){}\[\]<>,=*:|])
)''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise ParseError("token at " + s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


# types are tuples: ('i',32) ('ptr',) ('void',) ('f',4) ('arr',n,T) ('st',(T..),packed) ('vec',n,T) ('named',name)
PTR = ("ptr",)
VOID = ("void",)


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}    # name -> dict(const, init (parsed constant or None), ty, linkage)
        self.funcs = {}      # name -> Func
        self.decls = {}      # name -> linkage words
        self.aliases = {}

    def merge(self, o):
        raise NotImplementedError

    def res(self, t):
        while t[0] == "named":
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.res(t)
        k = t[0]
        if k == "i":
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return min(p, 16)
        if k == "ptr":
            return 8
        if k == "f":
            return t[1]
        if k == "arr":
            return self.align(t[2])
        if k == "vec":
            return self.size(t)
        if k == "st":
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        raise ParseError("align of " + str(t))

    def size(self, t):
        t = self.res(t)
        k = t[0]
        if k == "i":
            a = self.align(t)
            n = (t[1] + 7) // 8
            return (n + a - 1) // a * a
        if k == "ptr":
            return 8
        if k == "f":
            return t[1]
        if k == "arr":
            return t[1] * self.size(t[2])
        if k == "vec":
            n = t[1] * self.size(t[2])
            p = 1
            while p < n:
                p *= 2
            return p
        if k == "st":
            off, tot = self.offsets(t)
            return tot
        if k == "void":
            return 0
        raise ParseError("size of " + str(t))

    def offsets(self, t):
        t = self.res(t)
        off = 0
        out = []
        for x in t[1]:
            if not t[2]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            out.append(off)
            off += self.size(x)
        if not t[2]:
            a = self.align(t)
            off = (off + a - 1) // a * a
        return out, off


class Func:
    __slots__ = ("name", "params", "ret", "blocks", "order", "lines", "parsed", "entry")

    def __init__(self, name):
        self.name = name
        self.params = []      # (name, type, attrs)
        self.ret = None
        self.blocks = {}
        self.lines = []
        self.parsed = False
        self.entry = None


ATTRWORDS = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly", "readnone", "writeonly",
             "returned", "nofree", "immarg", "swiftself", "noext", "nest", "allocptr", "allocalign", "dead_on_unwind", "writable",
             "nofpclass", "inrange", "dead_on_return"}
CCS = {"ccc", "fastcc", "coldcc", "tailcc", "cold", "dso_local", "dso_preemptable", "internal", "private", "linkonce_odr", "linkonce", "weak",
       "weak_odr", "external", "extern_weak", "available_externally", "common", "appending", "hidden", "protected", "default",
       "local_unnamed_addr", "unnamed_addr", "thread_local", "externally_initialized", "preserve_mostcc", "preserve_allcc"}


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError(f"expected {v} at {self.t[self.i:self.i + 8]} in {self.t[:12]}")

    # ---- types --------------------------------------------------------------
    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "ptr":
                if self.peek()[1] == "addrspace":
                    self.next()
                    self.skip_parens()
                t = PTR
            elif v == "void":
                t = VOID
            elif re.fullmatch(r"i\d+", v):
                t = ("i", int(v[1:]))
            elif v == "float":
                t = ("f", 4)
            elif v == "double":
                t = ("f", 8)
            elif v == "half":
                t = ("f", 2)
            elif v in ("x86_fp80", "fp128"):
                t = ("f", 16)
            elif v in ("metadata", "label", "token"):
                t = (v,)
            else:
                raise ParseError("type " + v)
        elif k == "name" and v[0] == "%":
            t = ("named", v)
        elif v == "{":
            t = self.tylist("}", False)
        elif v == "<{":
            t = self.tylist("}>", True)
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif v == "<":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect(">")
            t = ("vec", n, e)
        else:
            raise ParseError(f"type {k} {v}")
        return t

    def tylist(self, end, packed):
        xs = []
        if not self.accept(end):
            while True:
                xs.append(self.type())
                if self.accept(end):
                    break
                self.expect(",")
        return ("st", tuple(xs), packed)

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            v = self.next()[1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1

    def attrs(self):
        """parameter / return attributes"""
        out = {}
        while True:
            k, v = self.peek()
            if k == "word" and v in ATTRWORDS:
                self.next()
                out[v] = True
                if self.peek()[1] == "(":
                    self.skip_parens()
            elif k == "word" and v in ("sret", "byval", "byref", "inalloca", "preallocated", "elementtype"):
                self.next()
                self.expect("(")
                out[v] = self.type()
                self.expect(")")
            elif k == "word" and v == "align":
                self.next()
                if self.peek()[1] == "(":
                    self.skip_parens()
                else:
                    self.next()
            elif k == "word" and v in ("dereferenceable", "dereferenceable_or_null", "captures", "range", "initializes", "memory",
                                       "allocsize", "nofpclass"):
                self.next()
                if v == "range" or self.peek()[1] == "(":
                    self.skip_parens()
            elif k == "attr":
                self.next()
            elif k == "str":
                self.next()
                if self.accept("="):
                    self.next()
            else:
                return out

    # ---- values: ('int',n) ('loc',name) ('glob',name) ('null',) ('undef',) ('zero',) ('agg',[(T,v)..]) ('bytes',b) ('ce',...) ---------
    def value(self, ty):
        k, v = self.next()
        if k == "num":
            if "." in v:
                return ("fp", v)
            return ("int", int(v))
        if k == "hex":
            return ("fphex", v)
        if k == "name":
            return ("loc", v) if v[0] == "%" else ("glob", v)
        if k == "meta":
            while self.peek()[1] not in (",", ")", None):
                self.next()
            return ("meta",)
        if k == "str":
            return ("bytes", unesc(v[2:-1]))
        if v == "null":
            return ("null",)
        if v in ("undef", "poison"):
            return ("undef",)
        if v == "true":
            return ("int", 1)
        if v == "false":
            return ("int", 0)
        if v in ("zeroinitializer", "none"):
            return ("zero",)
        if v in ("{", "<{", "[", "<"):
            end = {"{": "}", "<{": "}>", "[": "]", "<": ">"}[v]
            if v == "<" and self.peek()[1] == "{":
                raise ParseError("packed")
            xs = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    xs.append((t, self.value(t)))
                    if self.accept(end):
                        break
                    self.expect(",")
            return ("agg", xs)
        if v == "splat":
            self.expect("(")
            t = self.type()
            x = self.value(t)
            self.expect(")")
            return ("splat", t, x)
        if v in ("getelementptr", "ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "sub", "add", "mul", "xor", "and", "or", "shl",
                 "addrspacecast", "icmp", "select"):
            return self.constexpr(v)
        if v == "dso_local_equivalent" or v == "no_cfi":
            return self.value(ty)
        raise ParseError(f"value {k} {v} {self.t[max(0,self.i-6):self.i+4]}")

    def constexpr(self, op):
        while self.peek()[1] in ("inbounds", "nuw", "nsw", "nusw", "inrange", "exact"):
            w = self.next()[1]
            if w == "inrange" and self.peek()[1] == "(":
                self.skip_parens()
        pred = None
        if op == "icmp":
            pred = self.next()[1]
        self.expect("(")
        if op == "getelementptr":
            t = self.type()
            self.expect(",")
            args = []
            while True:
                self.accept("inrange")
                at = self.type()
                args.append((at, self.value(at)))
                if self.accept(")"):
                    break
                self.expect(",")
            return ("ce", "gep", t, args)
        if op in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("ce", "cast", op, t, v, t2)
        args = []
        while True:
            at = self.type()
            args.append((at, self.value(at)))
            if self.accept(")"):
                break
            self.expect(",")
        if pred:
            return ("ce", "icmp", pred, args)
        return ("ce", "bin", op, args)

    def tyval(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\" and i + 2 < len(s) + 1 and re.match(r"[0-9A-Fa-f]{2}", s[i + 1:i + 3]):
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        elif s[i] == "\\":
            out += b"\\"
            i += 2
        else:
            out += s[i].encode("latin-1", "replace")
            i += 1
    return bytes(out)


def strip_comment(ln):
    if ";" not in ln:
        return ln
    q = False
    for i, c in enumerate(ln):
        if c == '"':
            q = not q
        elif c == ";" and not q:
            return ln[:i]
    return ln


def parse(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ";!" or ln.startswith(("source_filename", "target", "attributes", "module", "$", "^", "uselistorder")):
            continue
        ln = strip_comment(ln)
        if not ln.strip():
            continue
        if ln.startswith("%") and " = type " in ln:
            name, rest = ln.split(" = type ", 1)
            if rest.strip() == "opaque":
                m.types[name] = ("st", (), False)
            else:
                m.types[name] = P(tokenize(rest)).type()
            continue
        if ln.startswith("@"):
            parse_global(m, ln)
            continue
        if ln.startswith("declare"):
            p = P(tokenize(ln[7:]))
            name, words = func_name(p)
            m.decls[name] = words
            continue
        if ln.startswith("define"):
            hdr = ln
            while not hdr.rstrip().endswith("{"):
                hdr += " " + strip_comment(lines[i])
                i += 1
            f = parse_header(hdr[6:])
            body = []
            while lines[i] != "}":
                body.append(lines[i])
                i += 1
            i += 1
            f.lines = body
            m.funcs[f.name] = f
            continue
        raise ParseError("line " + ln[:120])
    return m


def func_name(p):
    words = []
    while True:
        k, v = p.peek()
        if k == "name" and v[0] == "@":
            p.next()
            return v, words
        words.append(v)
        p.next()


def parse_header(s):
    p = P(tokenize(s))
    while True:
        k, v = p.peek()
        if k == "word" and v in CCS:
            p.next()
            if v == "thread_local" and p.peek()[1] == "(":
                p.skip_parens()
        elif k == "word" and v == "cc":
            p.next()
            p.next()
        else:
            a = p.i
            p.attrs()
            if p.i == a:
                break
    ret = p.type()
    k, v = p.next()
    f = Func(v)
    f.ret = ret
    p.expect("(")
    n = 0
    if not p.accept(")"):
        while True:
            if p.accept("..."):
                p.expect(")")
                break
            t = p.type()
            at = p.attrs()
            k, v = p.peek()
            if k == "name":
                p.next()
                nm = v
            else:
                nm = "%" + str(n)
            n += 1
            f.params.append((nm, t, at))
            if p.accept(")"):
                break
            p.expect(",")
    return f


def parse_global(m, ln):
    p = P(tokenize(ln))
    name = p.next()[1]
    p.expect("=")
    words = []
    while True:
        k, v = p.peek()
        if k == "word" and v in CCS:
            words.append(v)
            p.next()
            if v == "thread_local" and p.peek()[1] == "(":
                p.skip_parens()
        elif k == "word" and v == "addrspace":
            p.next()
            p.skip_parens()
        else:
            break
    k, v = p.next()
    if v == "alias":
        p.type()
        if p.peek()[1] == "(":
            p.skip_parens()
        p.expect(",")
        t = p.type()
        m.aliases[name] = p.value(t)
        return
    if v not in ("global", "constant"):
        raise ParseError("global " + ln[:100])
    t = p.type()
    init = None
    k2, v2 = p.peek()
    if v2 is not None and v2 != ",":
        init = p.value(t)
    m.globals[name] = {"const": v == "constant", "ty": t, "init": init, "words": words}


LABEL = re.compile(r'^(?P<n>"[^"]*"|[-A-Za-z$._0-9]+):')
FLAGS = {"inbounds", "nuw", "nsw", "exact", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg",
         "samesign", "volatile", "atomic", "weak"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp",
        "ptrtoaddr"}


def body(m, f):
    """parse a function body on first use; blocks: label -> list of instruction tuples (op, dst, ...)"""
    if f.parsed:
        return
    cur = None
    # unnamed values: arguments take 0..n-1, the entry block the next number
    pend = None
    for raw in f.lines:
        if raw.startswith("  #dbg_") or raw.lstrip().startswith("#dbg_"):
            continue
        ln = strip_comment(raw)
        if not ln.strip():
            continue
        if ln[0] not in " \t":
            mm = LABEL.match(ln)
            if mm:
                cur = "%" + mm.group("n")
                f.blocks[cur] = []
                if f.entry is None:
                    f.entry = cur
                continue
        if pend is not None:
            pend += " " + ln
            if "]" in ln:
                ln = pend
                pend = None
            else:
                continue
        elif ln.lstrip().startswith("switch ") and "]" not in ln:
            pend = ln
            continue
        if cur is None:
            cnt = sum(1 for nm, _, _ in f.params if re.fullmatch(r"%\d+", nm))
            cur = f.entry = "%" + str(cnt)
            f.blocks[cur] = []
        f.blocks[cur].append(instr(ln))
    f.parsed = True
    f.lines = None


def instr(ln):
    p = P(tokenize(ln))
    dst = None
    if p.peek()[0] == "name" and p.peek(1)[1] == "=":
        dst = p.next()[1]
        p.next()
    op = p.next()[1]
    while op in ("tail", "musttail", "notail"):
        op = p.next()[1]
    fl = set()

    def flags():
        while p.peek()[1] in FLAGS and p.peek()[0] == "word":
            w = p.next()[1]
            fl.add(w)
            if w == "inrange" and p.peek()[1] == "(":
                p.skip_parens()
    if op == "alloca":
        p.accept("inalloca")
        t = p.type()
        cnt = None
        if p.accept(","):
            if p.peek()[1] not in ("align", "addrspace"):
                ct = p.type()
                cnt = p.value(ct)
        return ("alloca", dst, t, cnt)
    if op == "load":
        flags()
        t = p.type()
        p.expect(",")
        pt = p.type()
        v = p.value(pt)
        ordr = None
        while p.peek()[1] is not None and p.peek()[1] != ",":
            w = p.next()[1]
            if w in ("monotonic", "acquire", "seq_cst", "unordered", "release", "acq_rel"):
                ordr = w
        return ("load", dst, t, v, "atomic" in fl and ordr)
    if op == "store":
        flags()
        t = p.type()
        v = p.value(t)
        p.expect(",")
        pt = p.type()
        q = p.value(pt)
        ordr = None
        while p.peek()[1] is not None and p.peek()[1] != ",":
            w = p.next()[1]
            if w in ("monotonic", "acquire", "seq_cst", "unordered", "release", "acq_rel"):
                ordr = w
        return ("store", None, t, v, q, "atomic" in fl and ordr)
    if op == "getelementptr":
        flags()
        t = p.type()
        p.expect(",")
        args = []
        while True:
            at = p.type()
            args.append((at, p.value(at)))
            if not p.accept(","):
                break
            if p.peek()[0] == "meta":
                break
        return ("gep", dst, t, args)
    if op in BIN:
        flags()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return ("bin", dst, op, t, a, b)
    if op == "fneg":
        flags()
        t = p.type()
        return ("fneg", dst, t, p.value(t))
    if op in CAST:
        flags()
        t = p.type()
        v = p.value(t)
        p.expect("to")
        return ("cast", dst, op, t, v, p.type())
    if op == "freeze":
        t = p.type()
        return ("freeze", dst, t, p.value(t))
    if op in ("icmp", "fcmp"):
        flags()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(",")
        return (op, dst, pred, t, a, p.value(t))
    if op == "select":
        flags()
        ct = p.type()
        c = p.value(ct)
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        t2 = p.type()
        return ("select", dst, ct, c, t, a, p.value(t2))
    if op == "phi":
        flags()
        t = p.type()
        ins = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            ins.append((v, p.next()[1]))
            p.expect("]")
            if not p.accept(","):
                break
            if p.peek()[0] == "meta":
                break
        return ("phi", dst, t, ins)
    if op == "br":
        if p.accept("label"):
            return ("jmp", None, p.next()[1])
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.expect("label")
        a = p.next()[1]
        p.expect(",")
        p.expect("label")
        return ("br", None, c, a, p.next()[1])
    if op == "switch":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.expect("label")
        d = p.next()[1]
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            cv = p.value(ct)
            p.expect(",")
            p.expect("label")
            cases.append((cv, p.next()[1]))
        return ("switch", None, t, v, d, cases)
    if op == "ret":
        t = p.type()
        if t == VOID:
            return ("ret", None, t, None)
        return ("ret", None, t, p.value(t))
    if op == "unreachable":
        return ("unreachable", None)
    if op in ("call", "invoke"):
        flags()
        while True:
            k, v = p.peek()
            if k == "word" and v in CCS:
                p.next()
            elif k == "word" and v == "cc":
                p.next()
                p.next()
            else:
                a = p.i
                p.attrs()
                if p.i == a:
                    break
        rt = p.type()
        if p.peek()[1] == "(":        # function type
            save = p.i
            p.skip_parens()
            if p.peek()[0] != "name":
                p.i = save
        k, v = p.peek()
        if v == "asm":
            return ("asm", dst, rt, ln)
        cal = p.value(PTR)
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                t = p.type()
                at = p.attrs()
                args.append((t, at, p.value(t)))
                if p.accept(")"):
                    break
                p.expect(",")
        nxt = None
        if op == "invoke":
            while p.peek()[1] != "to":
                p.next()
            p.next()
            p.expect("label")
            nxt = p.next()[1]
        return ("call", dst, rt, cal, args, nxt)
    if op in ("extractvalue", "insertvalue"):
        t = p.type()
        a = p.value(t)
        p.expect(",")
        e = et = None
        if op == "insertvalue":
            et = p.type()
            e = p.value(et)
            p.expect(",")
        idx = []
        while p.peek()[0] == "num":
            idx.append(int(p.next()[1]))
            if not p.accept(","):
                break
        return (op, dst, t, a, et, e, idx)
    if op in ("extractelement", "insertelement"):
        t, a = p.tyval()
        p.expect(",")
        xs = [(t, a)]
        while True:
            xs.append(p.tyval())
            if not p.accept(","):
                break
        return (op, dst, xs)
    if op == "atomicrmw":
        flags()
        o = p.next()[1]
        pt = p.type()
        q = p.value(pt)
        p.expect(",")
        t = p.type()
        v = p.value(t)
        w = [x[1] for x in p.t[p.i:] if x[1] in ("monotonic", "acquire", "seq_cst", "release", "acq_rel")]
        return ("atomicrmw", dst, o, q, t, v, w[0] if w else None)
    if op == "cmpxchg":
        flags()
        pt = p.type()
        q = p.value(pt)
        p.expect(",")
        t = p.type()
        c = p.value(t)
        p.expect(",")
        t2 = p.type()
        v = p.value(t2)
        w = [x[1] for x in p.t[p.i:] if x[1] in ("monotonic", "acquire", "seq_cst", "release", "acq_rel")]
        return ("cmpxchg", dst, q, t, c, v, tuple(w))
    if op == "fence":
        w = [x[1] for x in p.t[p.i:] if x[1] in ("monotonic", "acquire", "seq_cst", "release", "acq_rel")]
        return ("fence", None, w[0] if w else None)
    if op in ("landingpad", "resume", "cleanupret", "catchpad"):
        return ("eh", dst, op)
    return ("unknown", dst, ln.strip())
