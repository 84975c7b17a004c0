"""Compile-time values of expressions in the target languages, read off the constant initialisers of the IR.

Nothing is executed: the front end of the language folds the expression, the value is in the text of the IR."""
import os
import re
import struct

from idlv.extract import REPO
from .tool import run, rust_lib, CINC, CPPINC

GL = re.compile(r'^@"?(pv|ps)_(\d+)"? = .*?\b(?:constant|global) (.*?)(?:, align \d+)?(?:, section .*)?(?:, !dbg.*)?$', re.M)


def fval(s, w):
    if s.startswith("0x"):
        v = struct.unpack(">d", bytes.fromhex(s[2:].rjust(16, "0")))[0]
    else:
        v = float(s)
    return ("float", w, v)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i:i + 2] == "\\\\":
            out.append(92)
            i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def init(t):
    """initialiser text -> (kind, bits, raw value) or None"""
    t = t.strip()
    m = re.fullmatch(r"(float|double) (\S+)", t)
    if m:
        return fval(m.group(2), 32 if m.group(1) == "float" else 64)
    m = re.fullmatch(r"i(\d+) (-?\d+|true|false)", t)
    if m:
        v = {"true": 1, "false": 0}.get(m.group(2))
        return ("int", int(m.group(1)), int(m.group(2)) if v is None else v)
    m = re.search(r'\[(\d+) x i8\] (c"(.*)"|zeroinitializer)', t)
    if m:
        n = int(m.group(1))
        b = bytes(n) if m.group(3) is None else unesc(m.group(3))
        return ("bytes", 8 * n, b)
    return None


def compile_lines(s, name, ext, head, lines, cmd, pat, tries=40):
    """compiles head + one line per probe; lines with diagnostics are left out. -> (IR text or None, {index: message})"""
    bad = {}
    hn = head.count("\n")
    for _ in range(tries):
        txt = head + "".join((l if i not in bad else "") + "\n" for i, l in enumerate(lines))
        src = s.write(name + ext, txt)
        out = os.path.join(s.d, name + ".ll")
        rc, msg = run([*cmd, "-o", out, src])
        if rc == 0:
            with open(out) as f:
                return f.read(), bad
        hit = False
        for m in re.finditer(pat.replace("SRC", re.escape(src)), msg):
            i = int(m.group(1)) - hn - 1
            if 0 <= i < len(lines) and i not in bad:
                bad[i] = msg[max(0, m.start() - 200):m.start() + 400]
                hit = True
        if not hit:
            return None, {**bad, None: msg[:1500]}
    return None, {**bad, None: "too many rounds"}


def collect(ir, items, bad, sign=None):
    """{key: (kind, bits, signed or None, value) | ('err', message)}"""
    out = {}
    if ir is None:
        for i, it in enumerate(items):
            out[it[0]] = ("err", bad.get(i) or bad.get(None) or "does not compile")
        return out
    vals, sg = {}, {}
    for m in GL.finditer(ir):
        (vals if m.group(1) == "pv" else sg)[int(m.group(2))] = init(m.group(3))
    for i, it in enumerate(items):
        if i in bad:
            out[it[0]] = ("err", bad[i])
            continue
        v = vals.get(i)
        if v is None:
            out[it[0]] = ("err?", "no constant initialiser in the IR")
            continue
        signed = sign(i) if sign else (sg.get(i) or (0, 0, None))[2]
        kind, bits, x = v
        if kind == "bytes":
            if isinstance(signed, str):                     # 'f': float
                x = struct.unpack("<f" if bits == 32 else "<d", x)[0]
                kind = "float"
            else:
                x = int.from_bytes(x, "little")
                kind = "int"
        if kind == "int":
            x &= (1 << bits) - 1
            if signed and x >> (bits - 1):
                x -= 1 << bits
        out[it[0]] = (kind, bits, bool(signed), x)
    return out


def c(s, name, header, items):
    """items: [(key, expression)]"""
    head = f'#include <stddef.h>\n#include "{header}"\n'
    lines = [f"extern const __typeof__({e}) pv_{i}; const __typeof__({e}) pv_{i} = ({e}); extern const char ps_{i}; const char ps_{i} = (__typeof__({e}))-1 < (__typeof__({e}))0;"
             for i, (k, e) in enumerate(items)]
    ir, bad = compile_lines(s, name, ".c", head, lines, ["clang", "-std=gnu11", "-S", "-emit-llvm", "-O0", "-w", "-ferror-limit=0", "-I", s.d, "-I", CINC], r"SRC:(\d+):\d+: (?:fatal )?error")
    return collect(ir, items, bad)


def cpp(s, name, header, items):
    """items: [(key, expression, prefix of the line)]"""
    head = f'#include <cstddef>\n#include <type_traits>\n#include "{header}"\n'
    lines = []
    for i, it in enumerate(items):
        e = it[1]
        pre = it[2] if len(it) > 2 else ""
        lines.append(f'{pre} extern "C" constexpr std::remove_cv<std::remove_reference<decltype({e})>::type>::type pv_{i} = ({e}); '
                     f'extern "C" constexpr char ps_{i} = std::is_signed<std::remove_cv<std::remove_reference<decltype({e})>::type>::type>::value; '
                     f'extern "C" const void *const pk_{i}[]; const void *const pk_{i}[] = {{&pv_{i}, &ps_{i}}};')
    ir, bad = compile_lines(s, name, ".cpp", head, lines, ["clang++", "-S", "-emit-llvm", "-O0", "-w", "-ferror-limit=0", "-fno-rtti", "-fno-exceptions", "-I", s.d, "-I", CINC, "-I", CPPINC],
                            r"SRC:(\d+):\d+: (?:fatal )?error")
    return collect(ir, items, bad)


def rust(s, name, mods, items):
    """items: [(key, expression, type)] with type the Rust type the value must have"""
    head = rust_lib(mods, "")
    if not head.endswith("\n"):
        head += "\n"
    lines = [f"#[no_mangle] pub static pv_{i}: {t} = {e};" for i, (k, e, t) in enumerate(items)]
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "gen", "--cfg", 'feature="std"', "-C", "panic=abort", "-C", "opt-level=0",
           "-C", "debuginfo=0", "-C", "codegen-units=1", "--emit=llvm-ir"]
    ir, bad = compile_lines(s, name, ".rs", head, lines, cmd, r"--> SRC:(\d+):\d+")
    return collect(ir, items, bad, lambda i: "f" if items[i][2][0] == "f" else items[i][2][0] == "i")


def java(cls):
    """{field: (kind, bits, signed, value)} of the compile-time constants of a class file"""
    out = {}
    for n, (d, cv, fl) in cls.fields.items():
        if cv is None:
            out[n] = ("err?", "not a compile-time constant")
        elif d in "BSIJ":
            out[n] = ("int", {"B": 8, "S": 16, "I": 32, "J": 64}[d], True, cv[1])
        elif d in "CZ":
            out[n] = ("int", 16 if d == "C" else 1, False, cv[1] & 0xffff)
        elif d in "FD":
            out[n] = ("float", 32 if d == "F" else 64, True, cv[1])
        else:
            out[n] = ("err?", "constant of type " + d)
    return out
