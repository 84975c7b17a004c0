"""Reader of Java class files (JVMS chapter 4), as far as the analyses need."""
import struct


class Class:
    def __init__(self):
        self.fields = {}      # name -> (descriptor, constant or None, flags)
        self.methods = {}     # (name, descriptor) -> Code or None
        self.flags = {}       # (name, descriptor) -> access flags
        self.cp = []
        self.bootstrap = []

    def __deepcopy__(self, m):
        return self


class Code:
    def __init__(self, stack, locals_, code, table):
        self.max_stack, self.max_locals, self.code, self.table = stack, locals_, code, table

    def __deepcopy__(self, m):
        return self


class Rd:
    def __init__(self, b):
        self.b = b
        self.i = 0

    def u1(self):
        self.i += 1
        return self.b[self.i - 1]

    def u2(self):
        self.i += 2
        return int.from_bytes(self.b[self.i - 2:self.i], "big")

    def u4(self):
        self.i += 4
        return int.from_bytes(self.b[self.i - 4:self.i], "big")

    def raw(self, n):
        self.i += n
        return self.b[self.i - n:self.i]


def mutf8(b):
    return b.replace(b"\xc0\x80", b"\0").decode("utf-8", "surrogatepass")


def parse(data):
    r = Rd(data)
    if r.u4() != 0xCAFEBABE:
        raise ValueError("not a class file")
    r.u2(), r.u2()
    n = r.u2()
    cp = [None] * n
    i = 1
    while i < n:
        t = r.u1()
        w = 1
        if t == 1:
            cp[i] = ("utf8", mutf8(r.raw(r.u2())))
        elif t == 3:
            cp[i] = ("int", struct.unpack(">i", r.raw(4))[0])
        elif t == 4:
            cp[i] = ("float", struct.unpack(">f", r.raw(4))[0])
        elif t == 5:
            cp[i] = ("long", struct.unpack(">q", r.raw(8))[0])
            w = 2
        elif t == 6:
            cp[i] = ("double", struct.unpack(">d", r.raw(8))[0])
            w = 2
        elif t in (7, 8, 16, 19, 20):
            cp[i] = ({7: "class", 8: "string", 16: "mtype", 19: "module", 20: "package"}[t], r.u2())
        elif t in (9, 10, 11):
            cp[i] = ({9: "field", 10: "method", 11: "imethod"}[t], r.u2(), r.u2())
        elif t == 12:
            cp[i] = ("nat", r.u2(), r.u2())
        elif t == 15:
            cp[i] = ("mhandle", r.u1(), r.u2())
        elif t in (17, 18):
            cp[i] = ("dynamic", r.u2(), r.u2())
        else:
            raise ValueError(f"constant pool tag {t}")
        i += w
    c = Class()
    c.cp = cp
    c.access = r.u2()
    c.name = classname(cp, r.u2())
    c.super = classname(cp, r.u2())
    c.interfaces = [classname(cp, r.u2()) for _ in range(r.u2())]
    for _ in range(r.u2()):
        fl, nm, ds = r.u2(), utf(cp, r.u2()), utf(cp, r.u2())
        const = None
        for an, ad in attrs(cp, r):
            if an == "ConstantValue":
                const = cp[int.from_bytes(ad, "big")]
        c.fields[nm] = (ds, const, fl)
    for _ in range(r.u2()):
        fl, nm, ds = r.u2(), utf(cp, r.u2()), utf(cp, r.u2())
        code = None
        for an, ad in attrs(cp, r):
            if an == "Code":
                q = Rd(ad)
                ms, ml = q.u2(), q.u2()
                body = q.raw(q.u4())
                tab = [(q.u2(), q.u2(), q.u2(), q.u2()) for _ in range(q.u2())]
                code = Code(ms, ml, body, [(a, b, h, classname(cp, t) if t else None) for a, b, h, t in tab])
        c.methods[(nm, ds)] = code
        c.flags[(nm, ds)] = fl
    for an, ad in attrs(cp, r):
        if an == "BootstrapMethods":
            q = Rd(ad)
            for _ in range(q.u2()):
                m = q.u2()
                c.bootstrap.append((m, [q.u2() for _ in range(q.u2())]))
    return c


def attrs(cp, r):
    out = []
    for _ in range(r.u2()):
        nm = utf(cp, r.u2())
        out.append((nm, r.raw(r.u4())))
    return out


def utf(cp, i):
    return cp[i][1]


def classname(cp, i):
    return utf(cp, cp[i][1]) if i else None


def member(cp, i):
    """(kind, class, name, descriptor) of a field or method reference"""
    k, c, n = cp[i]
    _, a, b = cp[n]
    return k, classname(cp, c), utf(cp, a), utf(cp, b)
