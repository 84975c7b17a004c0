"""C16: the compiler is total and memory-safe, and optimised builds agree with debug builds.

Two databases are extracted from the current sources: the MIR of the debug configuration and the MIR of the
optimised one (debug assertions and overflow checks off).  Both are interpreted abstractly on the same inputs:
texts derived from the grammar file, so that every alternative, repetition and separator of the grammar reaches
the conversion to the AST; the catalogues of well-formed and of violating file sets; and boundary values of every
quantity the compiler computes with.  The two have to agree on accept / reject and on every byte written, neither
may reach undefined behaviour, a rejection has to say so, and every failure of a file operation has to end the run
unsuccessfully.  The sites at which the two configurations differ are enumerated from the MIR."""
import collections
import os
import random

from absint.cover import Cover, nullable, recursive_rules
from absint.front import WS
from idlv.core import parallel
from idlv.run import *
from idlv.idl import *
from . import c09cat, valid

MAIN = "/w/a.idl"
TOP = (1 << 64) - 1


# ---- inputs ----------------------------------------------------------------------------------------
def M(*ps, name="go", opt=False):
    return Method(name, list(ps), opt)


def numerals():
    """array sizes and their spellings: (key, files, must be refused)"""
    for v, bad in (("0", True), ("00", True), ("1", False), ("001", False), ("2", False), ("15", False), ("255", False), ("256", False),
                   ("4096", False), ("32767", False), ("32768", False), ("65534", False), ("65535", False), ("0000000065535", False), ("65536", True), ("65537", True),
                   ("65551", True), ("131071", True), ("4294967295", True), ("4294967296", True), ("4294967297", True), (str(TOP), True), (str(TOP + 1), True),
                   (str(TOP + 2), True), ("1" * 60, True)):
        yield f"size/field-{v[:24]}", {MAIN: f"struct S {{ uint8[{v}] a; }};\ninterface I {{ method m(in S s); }};\n"}, bad
        yield f"size/struct-field-{v[:24]}", {MAIN: f"struct T {{ uint64 x; }};\nstruct S {{ T[{v}] a; }};\ninterface I {{ method m(out S s); }};\n"}, bad
        yield f"size/included-{v[:24]}", {MAIN: 'include "b.idl"\ninterface I { method m(in S s); };\n', "/w/b.idl": f"struct S {{ uint16[{v}] a; }};\n"}, bad
        # how many objects one call may carry is C08's matter: only the numeral itself is judged here
        yield f"size/objects-{v[:24]}", {MAIN: f"interface I {{ method m(in I[{v}] s, out uint32 z); }};\n"}, True if bad else None
        yield f"size/objects-out-{v[:24]}", {MAIN: f"interface I {{ method m(out interface[{v}] s); }};\n"}, True if bad else None


def chainsizes():
    """structs whose sizes get near and past what a machine word holds"""
    def st(counts, base="uint8"):
        t, prev = "", base
        for i, c in enumerate(counts):
            t += f"struct S{i} {{ {prev}[{c}] a; }};\n"
            prev = f"S{i}"
        return t, prev

    def size(counts, w):
        for c in counts:
            w *= c
        return w
    for base, w in (("uint8", 1), ("uint16", 2), ("uint64", 8), ("interface", 16)):
        for counts in ([65535] * 3, [65535] * 4, [65535] * 5, [65535] * 6, [32768] * 4, [32768] * 4 + [2], [32768] * 4 + [8], [32768] * 4 + [15], [32768] * 4 + [16],
                       [32768] * 4 + [17], [32768, 32768], [32768, 65535], [32768, 32768, 2], [32768, 32768, 4], [65535, 65535], [32768] * 5, [256, 1], [255], [128, 2]):
            t, top = st(counts, base)
            n = size(counts, w)
            # an interface-bearing struct of that many objects cannot be passed, whatever its size
            bad = True if n > TOP else (None if base == "interface" else False)
            for d in ("in", "out"):
                yield f"bytes/{base}-{'x'.join(map(str, counts))}-{d}", {MAIN: t + f"interface I {{ method m({d} {top} s); }};\n"}, bad
            yield f"bytes/unused-{base}-{'x'.join(map(str, counts))}", {MAIN: t}, bad if base != "interface" or n > TOP else None
            yield f"bytes/included-{base}-{'x'.join(map(str, counts))}", {MAIN: f'include "b.idl"\ninterface I {{ method m(in {top} s, in uint32 x); }};\n', "/w/b.idl": t}, bad
    # sums instead of products
    t, top = st([32768] * 4)
    for extra, n in (("uint8[65535] z;", 0), (f"{top}[7] z; {top}[1] y;", 0), (f"{top}[15] y;", 0), (f"{top}[8] x; {top}[7] y;", 0), (f"{top}[8] x; {top}[8] y;", 1),
                     (f"{top}[15] x; {top} y; uint8 z;", 1), (f"{top}[15] x; {top} y;", 1), (f"{top}[15] x; S2[32767] y; S1[32767] z; S0[32767] w; uint8[32768] v;", 1),
                     (f"{top}[15] x; S2[32767] y; S1[32767] z; S0[32767] w; uint8[32767] v;", 0)):
        yield f"sum/{extra}", {MAIN: t + f"struct Z {{ {extra} }};\ninterface I {{ method m(in Z s, in uint8 b); }};\n"}, bool(n)
        yield f"sum-array/{extra}", {MAIN: t + f"struct Z {{ {extra} }};\ninterface I {{ method m(in Z[] s); }};\n"}, bool(n)


def counts():
    """argument counts around the limits of the counters"""
    for n in (1, 2, 14, 15, 16, 17, 31, 32, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513):
        for ty in ("buffer", "interface", "uint8[]", "B", "uint32", "P"):
            if n > 300 and ty in ("interface", "uint8[]", "P"):
                continue
            for d in ("in", "out"):
                ps = ", ".join(f"{d} {ty} p{i}" for i in range(n))
                yield f"count/{n}-{ty}-{d}", {MAIN: f"struct B {{ uint64[3] a; }};\ninterface P {{ }};\ninterface I {{ method m({ps}); }};\n"}, None
    for n in (1, 7, 8, 15, 16, 17, 255, 256, 257, 4096, 65535):
        for d in ("in", "out"):
            yield f"count/structobj-{n}-{d}", {MAIN: f"struct W {{ interface[{n}] o; }};\ninterface I {{ method m({d} W s); }};\n"}, None
            yield f"count/structobj-nested-{n}-{d}", {MAIN: f"struct W {{ interface o; }};\nstruct V {{ W[{n}] w; }};\ninterface I {{ method m({d} V s, in uint8 x); }};\n"}, None
            yield f"count/structobj-square-{n}-{d}", {MAIN: f"struct W {{ interface[{n}] o; }};\nstruct V {{ W[{n}] w; }};\ninterface I {{ method m({d} V s, in uint8 x); }};\n"}, None
            if n <= 257:
                yield f"count/structobj-params-{n}-{d}", {MAIN: "struct W { interface o; };\ninterface I { method m(" + ", ".join(f"{d} W s{i}" for i in range(n)) + "); };\n"}, None
    for n in (15, 16, 17, 255, 256, 257):
        for split in (1, n // 2, n - 1):
            ps = ", ".join(["in buffer b%d" % i for i in range(split)] + ["in uint8 a%d" % i for i in range(n - split)])
            yield f"count/mixed-{n}-{split}", {MAIN: f"interface I {{ method m({ps}); }};\n"}, None
            ps = ", ".join(["out buffer b%d" % i for i in range(split)] + ["out P a%d" % i for i in range(n - split)])
            yield f"count/mixedout-{n}-{split}", {MAIN: f"interface P {{ }};\ninterface I {{ method m({ps}); }};\n"}, None
    for n in (1, 100, 16380, 16384, 16385):
        if n <= 100:
            yield f"count/methods-{n}", {MAIN: "interface I {\n" + "".join(f"method m{i}();\n" for i in range(n)) + "};\n"}, False
    for n in (100, 400):
        yield f"count/errors-{n}", {MAIN: "interface I {\n" + "".join(f"error E{i};\n" for i in range(n)) + "};\n"}, False
        yield f"count/structs-{n}", {MAIN: "".join(f"struct S{i} {{ uint32 a; }};\n" for i in range(n))}, False
        yield f"count/fields-{n}", {MAIN: "struct S {" + "".join(f"uint32 a{i};\n" for i in range(n)) + "};\ninterface I { method m(in S s); };\n"}, False
        yield f"count/consts-{n}", {MAIN: "".join(f"const uint32 K{i} = {i};\n" for i in range(n))}, False


def consts():
    for w in (8, 16, 32, 64):
        for s in ("", "u"):
            lo, hi = (0, 2 ** w - 1) if s else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            for v in (lo - 1, lo, -1, 0, hi, hi + 1, 2 ** 128 - 1, 2 ** 128, -2 ** 127, -2 ** 127 - 1):
                for t in (str(v), ("-" if v < 0 else "") + "0x%x" % abs(v)):
                    for where in ("const {0} K = {1};\n", "interface I {{ const {0} K = {1}; }};\n"):
                        yield f"const/{s}int{w}-{t}-{where[0]}", {MAIN: where.format(f"{s}int{w}", t)}, not lo <= v <= hi
    for v in ("-0", "-0x0", "00", "0x00000000000000000000", "-00000000000000000000000000001"):
        yield f"const/odd-{v}", {MAIN: f"const int8 K = {v};\n"}, None
    for ty in ("float32", "float64"):
        for v in ("0", "1.5", "-1.5", "9" * 39, "9" * 38 + ".5", "1" * 400, "-" + "1" * 400, "0." + "0" * 400 + "1", "0x10", "3.40282346638528859811704183484516925440", "340282366920938463463374607431768211456"):
            yield f"const/{ty}-{v[:20]}-{len(v)}", {MAIN: f"const {ty} K = {v};\n"}, None


def odd():
    """malformed and outsized texts"""
    ok = "struct S { uint32 a; };\ninterface I { method m(in S s); };\n"
    L = "n" * 5000
    yield "long/ident", {MAIN: ok.replace("S", L)}, False
    yield "long/param", {MAIN: ok.replace(" s)", " " + L + ")")}, False
    yield "long/field", {MAIN: ok.replace(" a;", " " + L + ";")}, False
    yield "long/comment", {MAIN: "/* " + "x" * 100000 + "*/" + ok}, False
    yield "long/line", {MAIN: ok + "// " + "y" * 100000}, False
    yield "long/blank", {MAIN: " \n\t" * 2000 + ok}, False
    yield "long/doc", {MAIN: ok.replace("method", "/**\n" + " * line of text\n" * 500 + " */\nmethod")}, False
    yield "long/const", {MAIN: "const uint64 K = " + "0" * 5000 + "7;\n"}, False
    yield "long/attr-blank", {MAIN: ok.replace("method", "#[optional]" + " " * 1000 + "method")}, False
    for i in range(0, len(ok)):
        yield f"cut/{i}", {MAIN: ok[:i]}, None
    for i in range(0, len(ok), 1):
        yield f"drop/{i}", {MAIN: ok[:i] + ok[i + 1:]}, None
        for c in ("{", ";", "\x00", "\u00e9", "0", "\""):
            yield f"put/{i}-{c!r}", {MAIN: ok[:i] + c + ok[i:]}, None
    for i, c in enumerate(("\udcff", "\udcc3", "\udc80", "\udced\udca0\udc80")):
        yield f"utf8/comment-{i}", {MAIN: f"// {c}\n" + ok}, True
        yield f"utf8/block-{i}", {MAIN: f"/* {c} */\n" + ok}, True
        yield f"utf8/doc-{i}", {MAIN: ok.replace("method", f"/**\n * {c}\n */\n method")}, True
        yield f"utf8/ident-{i}", {MAIN: ok.replace("S", f"S{c}")}, True
        yield f"utf8/end-{i}", {MAIN: ok + c}, True
        yield f"utf8/included-{i}", {MAIN: 'include "b.idl"\n' + ok, "/w/b.idl": f"// {c}\n"}, True
        yield f"utf8/only-{i}", {MAIN: c}, True
    yield "bom", {MAIN: "\ufeff" + ok}, None
    yield "nul", {MAIN: "\x00" + ok}, True
    for doc in ("/**\n*/", "/**\n\n*/", "/**\n *\n */", "/**\r\n * a\r\n */", "/**\n a */", "/**\na\n\n\nb\n*/", "/**\n\t* tab\n\t*/", "/**\n * \u4e16\u754c\n */",
                "/**\n * @param[in] s text\n * @return x\n */", "/**\n/* nested\n*/", "/**\n** stars **\n**/"):
        for at in ("method", "interface", "struct", "error E;\nmethod"):
            yield f"doc/{doc!r}-{at[:5]}", {MAIN: ok.replace("method", "error E;\nmethod").replace(at, doc + "\n" + at)}, None


def cycles():
    """definitions which depend on themselves, in every file of an include set"""
    for k, cyc in (("self", "struct S { S s; };"), ("pair", "struct S { T t; };\nstruct T { S s; };"), ("array", "struct S { uint32 a; T[2] t; };\nstruct T { S[3] s; };"),
                   ("ring", "struct S { T t; };\nstruct T { U u; };\nstruct U { S s; };"), ("lasso", "struct S { T t; };\nstruct T { U u; };\nstruct U { T s; };"),
                   ("iface", "interface S : T { };\ninterface T : S { };"), ("iface-self", "interface S : S { };"), ("iface-ring", "interface S : T { };\ninterface T : U { };\ninterface U : S { };"),
                   ("iface-lasso", "interface S : T { };\ninterface T : U { };\ninterface U : T { };")):
        typ = k.startswith("iface")
        uses = {"param": "interface M { method m(in S s); };", "out": "interface M { method m(out S s); };",
                "field": "struct M { S s; };", "field-method": "struct N { S s; };\ninterface M { method m(in N s); };", "none": "interface M { method m(in uint8 s); };",
                "array": "interface M { method m(in S[] s); };"}
        if typ:
            uses["base"] = "interface M : S { method m(); };"
            uses["objs"] = "interface M { method m(in S[2] s); };"
            del uses["array"]
        for u, use in uses.items():
            yield f"cycle/{k}-{u}-same", {MAIN: cyc + "\n" + use + "\n"}, True
            yield f"cycle/{k}-{u}-included", {MAIN: 'include "b.idl"\n' + use + "\n", "/w/b.idl": cyc + "\n"}, True
            yield f"cycle/{k}-{u}-second", {MAIN: 'include "b.idl"\ninclude "c.idl"\n' + use + "\n", "/w/b.idl": "struct Ok { uint8 a; };\n", "/w/c.idl": cyc + "\n"}, True
            yield f"cycle/{k}-{u}-deep", {MAIN: 'include "b.idl"\n' + use + "\n", "/w/b.idl": 'include "c.idl"\n', "/w/c.idl": cyc + "\n"}, True
            if "\n" in cyc:
                first, rest = cyc.split("\n", 1)
                yield f"cycle/{k}-{u}-across", {MAIN: 'include "b.idl"\n' + first + "\n" + use + "\n", "/w/b.idl": rest + "\n"}, True
                yield f"cycle/{k}-{u}-across2", {MAIN: 'include "b.idl"\ninclude "c.idl"\n' + use + "\n", "/w/b.idl": rest + "\n", "/w/c.idl": first + "\n"}, True


def families():
    """inputs which grow: (key, n -> files, stages measured, crates whose work may follow the expanded size)"""
    def nest(k, shared):
        def f(n):
            t = "struct S0 { uint32 a; uint32 b; };\n"
            for i in range(1, n + 1):
                t += f"struct S{i} {{ " + " ".join(f"S{i - 1} f{q};" for q in range(k)) + " };\n"
            return {MAIN: t + (f"interface I {{ method m(in S{n} s); }};\n" if shared else "")}
        return f

    def incs(n):
        fs = {MAIN: 'include "l0.idl"\ninclude "r0.idl"\ninterface I { method m(); };\n'}
        for i in range(n):
            nx = f'include "l{i + 1}.idl"\ninclude "r{i + 1}.idl"\n' if i + 1 < n else ""
            fs[f"/w/l{i}.idl"] = nx + f"const uint8 L{i} = 1;\n"
            fs[f"/w/r{i}.idl"] = nx + f"const uint8 R{i} = 1;\n"
        return fs

    def bases(n):
        return {MAIN: "interface I0 { method m0(); };\n" + "".join(f"interface I{i} : I{i - 1} {{ method m{i}(); }};\n" for i in range(1, n + 1))}

    def dense(n):
        # every struct refers to every earlier one
        t = "struct S0 { uint32 a; };\n"
        for i in range(1, n + 1):
            t += f"struct S{i} {{ " + " ".join(f"S{q} f{q};" for q in range(i)) + " };\n"
        return {MAIN: t}

    def flat(what):
        return lambda n: {MAIN: {
            "structs": "".join(f"struct S{i} {{ uint32 a; }};\n" for i in range(n)),
            "fields": "struct S {" + "".join(f"uint32 a{i};\n" for i in range(n)) + "};\ninterface I { method m(in S s); };\n",
            "methods": "interface I {\n" + "".join(f"method m{i}(in uint8 a, out uint32 b);\n" for i in range(n)) + "};\n",
            "interfaces": "".join(f"interface I{i} {{ method m(in I0 o); }};\n" for i in range(n)),
            "consts": "interface I {\n" + "".join(f"const uint32 K{i} = {i};\n" for i in range(n)) + "};\n",
            "bundled": "interface I { method m(" + ", ".join(f"in uint32 a{i}, out uint16 b{i}" for i in range(n)) + "); };\n",
        }[what]}
    yield "doubling structs", nest(2, True), lambda n: 2 ** n
    yield "doubling structs, unused", nest(2, False), lambda n: 2 ** n
    yield "tripling structs", nest(3, True), lambda n: 3 ** n
    yield "structs naming all before", dense, lambda n: 2 ** n
    yield "doubling includes", incs, None
    yield "interface chain", bases, None
    for w in ("structs", "fields", "methods", "interfaces", "consts", "bundled"):
        yield w, flat(w), None


FLAGS = (({}, ""), ({"allow_undefined_behavior": True}, " --allow-undefined-behavior"), ({"no_typed_objects": True}, " --no-typed-objects"))


# ---- judgement -------------------------------------------------------------------------------------
def summarise(res):
    """what an observer of the process sees, per abstract trace"""
    return sorted({(r["kind"] == "ok" or r["kind"] == "exit" and r["exit"] == 0, tuple(sorted(outputs(r).items()))) for r in res.recs if r["kind"] != "unsupported"})


def run_one(F, fs, b, kw):
    F.I.sites = set()
    r = F.compile(fs, **{**BACKENDS.get(b, {}), **kw})
    return Res(r)


def judge(out, key, D, R, expect, dump=False, fault=False):
    """D, R: results of the debug and of the optimised configuration"""
    for nm, X in (("debug", D), ("optimised", R)):
        for r in X.recs:
            ub = [e for e in r["events"] if e[0] == "ub"]
            if ub:
                out.append(("bad", "memory safety", f"{key} [{nm}]", f"undefined behaviour: {ub[0][1:]}"))
                return
            if r["kind"] == "unsupported" and ("recursion deeper" in r["unsupported"] or "step limit" in r["unsupported"]):
                out.append(("bad", "termination", f"{key} [{nm}]", r["unsupported"]))
                return
    if D.uns or R.uns:
        out.append(("und", "debug and optimised builds agree", key, (D if D.uns else R).why()))
        return
    a, b = summarise(D), summarise(R)
    if a != b:
        out.append(("bad", "debug and optimised builds agree", key, f"debug: {D.why()}\noptimised: {R.why()}"))
        return
    out.append(("ok", "debug and optimised builds agree"))
    for r in D.recs + R.recs:
        if r["kind"] == "exit" and r["exit"] != 0 and not any(e[0] == "eprint" for e in r["events"]):
            out.append(("bad", "a rejection is reported", key, f"exit {r['exit']} without a diagnostic"))
            return
        if r["kind"] == "exit" and r["exit"] == 134:
            out.append(("bad", "memory safety", key, "abort"))
            return
        acc = r["kind"] == "ok" or r["kind"] == "exit" and r["exit"] == 0
        if acc and not dump and not any(e[0] == "open" for e in r["events"]) and expect == "one":
            out.append(("bad", "success writes the outputs", key, "exit 0 without an output file"))
            return
        if not acc and not fault and outputs(r):
            out.append(("bad", "a refused input leaves no output", key, f"{sorted(outputs(r))} written before: {r.get('panic') or r.get('exit')}"))
            return
    if expect is True:
        if D.rejected:
            out.append(("ok", "input that has to be refused"))
        else:
            out.append(("bad", "input that has to be refused", key, "accepted"))
    elif expect is False:
        if D.accepted:
            out.append(("ok", "input within the limits"))
        else:
            out.append(("bad", "input within the limits", key, D.why()))
    if D.rej:
        out.append(("ok", "a rejection is reported"))


# ---- the sites at which the configurations differ ---------------------------------------------------
def body_sites(db):
    out = collections.defaultdict(collections.Counter)
    for k, x in db.insts.items():
        b = x.get("body")
        if not b or x.get("crate") not in WS:
            continue
        for i, blk in enumerate(b["blocks"]):
            t = blk[1]
            if t[0] == "assert":
                out[x["name"]][("check", str(t[3]), str(t[5]))] += 1
            elif t[0] == "call":
                f = t[1] if isinstance(t[1], str) else "?"
                out[x["name"]][("call", db.insts[f]["name"] if f in db.insts else f, str(t[6]))] += 1
            for s in blk[0]:
                if s[0] == "=" and s[2][0] in ("bin", "cast"):
                    out[x["name"]][("op", str(s[2][1]).replace("WithOverflow", ""), "")] += 1
    return out


def differences(ctx, D, R):
    a, b = body_sites(D.db), body_sites(R.db)
    n = collections.Counter()
    rows = []
    for f in sorted(set(a) | set(b)):
        if f not in a or f not in b:
            continue
        x, y = a[f] - b[f], b[f] - a[f]
        for s, c in x.items():
            n["debug only: " + (s[1] if s[0] == "check" else s[1] if s[0] == "call" else s[0])] += c
            rows.append(("debug", f, s[1], s[2]))
        for s, c in y.items():
            n["optimised only: " + s[1]] += c
            rows.append(("optimised", f, s[1], s[2]))
    return n, rows


def loops(db):
    """natural loops of workspace functions and what drives them"""
    driven, other = 0, []
    for k, x in db.insts.items():
        b = x.get("body")
        if not b or x.get("crate") not in WS:
            continue
        bl = b["blocks"]
        succ = []
        for blk in bl:
            t = blk[1]
            s = {"goto": lambda: [t[1]], "switch": lambda: [q for _, q in t[2]] + [t[3]], "call": lambda: [t[5]], "drop": lambda: [t[2]], "assert": lambda: [t[4]]}.get(t[0], lambda: [])()
            succ.append([q for q in s if isinstance(q, int)])
        # strongly connected components
        idx, low, st, on, comps = {}, {}, [], set(), []

        def scc(v):
            work = [(v, iter(succ[v]))]
            idx[v] = low[v] = len(idx)
            st.append(v)
            on.add(v)
            while work:
                u, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = len(idx)
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(succ[w])))
                        break
                    if w in on:
                        low[u] = min(low[u], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[u])
                    if low[u] == idx[u]:
                        c = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            c.append(w)
                            if w == u:
                                break
                        if len(c) > 1 or u in succ[u]:
                            comps.append(c)
        if bl:
            scc(0)
        for c in comps:
            nxt = False
            for i in c:
                t = bl[i][1]
                if t[0] == "call" and isinstance(t[1], str) and t[1] in db.insts and db.insts[t[1]].get("item") in ("next", "next_back"):
                    nxt = True
            if nxt:
                driven += 1
            else:
                other.append(x["name"])
    return driven, other


UNSAFE = ("unwrap_unchecked", "new_unchecked", "get_unchecked", "get_unchecked_mut", "from_utf8_unchecked", "unreachable_unchecked", "transmute", "from_raw_parts", "set_len",
          "assume_init", "offset", "read_unaligned", "from_raw", "zeroed", "forget", "copy_nonoverlapping", "unchecked_add", "unchecked_mul", "unchecked_sub", "from_utf8_unchecked_mut")


def unsafe_calls(db):
    out = {}
    for k, x in db.insts.items():
        b = x.get("body")
        if not b or x.get("crate") not in WS:
            continue
        for i, blk in enumerate(b["blocks"]):
            t = blk[1]
            if t[0] == "call" and isinstance(t[1], str) and t[1] in db.insts:
                m = db.insts[t[1]]
                if m.get("item") in UNSAFE and m.get("crate") not in WS:
                    out[(k, i)] = (x["name"], m["item"], t[6])
            elif t[0] == "unreachable":
                pass
    return out


# ---- the check -------------------------------------------------------------------------------------
def run(ctx):
    D, R = load(), load(release=True)
    rnd = random.Random(ctx.seed)

    # (A) the parser cannot diverge: no rule reaches itself, no repetition of the empty text
    for r in recursive_rules(D.g):
        ctx.undecided("the grammar has no recursive rule", r, "nesting of the input is bounded by the stack only")
    if not recursive_rules(D.g):
        ctx.ok("the grammar has no recursive rule", len(D.g.rules))
    for r in nullable(D.g):
        ctx.violation("every repetition of the grammar consumes", r)
    if not nullable(D.g):
        ctx.ok("every repetition of the grammar consumes", len(D.g.rules))

    # (B) texts of the grammar, through the conversion to the AST and, without separators, through every stage
    cov = Cover(D.g).texts("idl")
    if not ctx.thorough:
        keep = [c for c in cov if c[0].endswith(("/blank", "/tight", "/all0", "/all2")) or c[0].startswith("sep")]
        rest = [c for c in cov if not (c[0].endswith(("/blank", "/tight", "/all0", "/all2")) or c[0].startswith("sep"))]
        rnd.shuffle(rest)
        cov = keep + rest[:4000]
    import re
    size = 60

    def incl(t):
        fs = {MAIN: t}
        for p in re.findall(r'include[ \t\r\n]+"([^"]*\.idl)"', t):
            if "/" not in p:
                fs.setdefault("/w/" + p, "")
        return fs

    def job_cov(chunk):
        out = []
        seen = set()
        for k, t in chunk:
            fs = incl(t)
            modes = [({"dump": "Ast"}, "dump ast", True)]
            if k.endswith("/blank"):
                modes += [({}, "c", False), ({"dump": "Mir"}, "dump mir", True), ({"dump": "Pst"}, "dump pst", True), ({"allow_undefined_behavior": True}, "c ub", False)]
            if k.endswith(("/blank", "/all2")):
                modes += [(dict(BACKENDS["rust"]), "rust", False), (dict(BACKENDS["java"]), "java", False), (dict(BACKENDS["cpp_skel"]), "cpp", False)]
            for kw, nm, dump in modes:
                d = run_one(D, fs, None, kw)
                r = run_one(R, fs, None, kw)
                seen |= {("R",) + s for s in R.I.sites} | {("D",) + s for s in D.I.sites}
                judge(out, f"grammar text {t!r} ({nm})"[:400], d, r, None, dump)
        out.append(("visited", seen))
        return fold(out)
    covc = [cov[i:i + size] for i in range(0, len(cov), size)]

    # (C) catalogues
    cat = []
    bs = list(BACKENDS)
    for gen in (numerals, chainsizes, counts, consts, odd, cycles):
        for k, fs, bad in gen():
            bb = bs if ctx.thorough else [bs[hash_of(k) % len(bs)]] + (["c"] if bad is not None or gen in (counts, chainsizes) else [])
            if gen is consts or gen is odd:
                bb = bb[:1] if not ctx.thorough else bs
            for b in dict.fromkeys(bb):
                if b == "java" and bad is False and "objects" in k:
                    continue
                cat.append((f"{k} [{b}]", texts(fs), b, {}, bad))
            if gen is consts or gen is numerals:
                cat.append((f"{k} --allow-undefined-behavior", texts(fs), "c", {"allow_undefined_behavior": True}, None))
    for k, fs, rule, kw in c09cat.catalogue():
        cat.append((f"{k} [invalid]", texts(fs), bs[hash_of(k) % len(bs)], kw, None))
    val = [(k, {MAIN: File(ds)}, {}) for k, ds, *_ in list(valid.gen())]
    val += [(k, {MAIN: t}, {}) if not t.startswith("include") else (k, {MAIN: t, "/w/b.idl": ""}, {}) for k, t in valid.layouts()]
    val += [(k, fs, kw) for k, fs, kw, j in valid.filesets()]
    if not ctx.thorough:
        rnd.shuffle(val)
        val = val[:900]
    for k, fs, kw in val:
        for b in (bs if ctx.thorough else [bs[hash_of(k) % len(bs)]]):
            cat.append((f"{k} [{b}]", texts(fs), b, kw, None))

    # flags and dumps on one rich file set
    rich = {MAIN: File(valid.rich())}
    for kw, nm in FLAGS:
        for b in bs:
            cat.append((f"flags{nm} [{b}]", texts(rich), b, kw, "one"))
    for dmp in ("Pst", "Ast", "Mir"):
        for k, fs, bad in list(odd())[::7] + list(cycles())[::5]:
            cat.append((f"{k} [dump {dmp}]", texts(fs), "c", {"dump": dmp}, "dump"))
    for i, mk in enumerate(("// plain\n", "", "x\r\ny", "\u00e9\n")):
        cat.append((f"marking {i}", {**texts(rich), "/w/m": mk}, bs[i % len(bs)], {"marking": "/w/m"}, "one"))
    for i, mk in enumerate(("\udcff", "a\n\udcc3(\n")):
        for b in bs:
            cat.append((f"marking utf8 {i} [{b}]", {**texts(rich), "/w/m": mk}, b, {"marking": "/w/m"}, True))
    for b in bs:
        cat.append((f"marking missing [{b}]", texts(rich), b, {"marking": "/w/none"}, True))
        cat.append((f"input missing [{b}]", {}, b, {}, True))
        cat.append((f"output directory missing [{b}]", texts(rich), b, {"output": "/nowhere/o"}, True))

    def job_cat(c):
        import os, time
        t0 = time.time()
        r = job_cat_(c)
        if os.environ.get("VERIF_PROFILE") and time.time() - t0 > 1:
            print("slow", round(time.time() - t0, 1), c[0], flush=True)
        return r

    def job_cat_(c):
        key, fs, b, kw, bad = c
        out = []
        d = run_one(D, fs, b, kw)
        r = run_one(R, fs, b, kw)
        dump = "dump" in kw
        seen = {("R",) + s for s in R.I.sites} | {("D",) + s for s in D.I.sites}
        judge(out, key, d, r, None if bad == "dump" else bad, dump)
        if bad == "dump" and kw["dump"] in ("Pst", "Ast"):
            # an input which does not parse cannot be dumped
            if D.g.parse("idl", fs[MAIN]) is None and not d.rejected and not d.uns:
                out.append(("bad", "input that has to be refused", key, "accepted although it does not parse"))
        return out + [("visited", seen)]

    # (D) a failing file operation ends the run unsuccessfully
    two = {MAIN: File([TGTLESS, Iface("IM", [Method("m", [Param("in", "Zq", "z")])])], ["b.idl"]), "/w/b.idl": File([Struct("Zq", [Field("uint32", "a")])], ["c.idl"]),
           "/w/c.idl": File([Const("uint8", "K", "1")]), "/w/m": "marked\n"}

    def job_fault(c):
        b, mk = c
        out = []
        kw = {"marking": "/w/m"} if mk else {}
        for nm, F in (("debug", D), ("optimised", R)):
            F.I.inject = None
            base = run_one(F, texts(two), b, kw)
            if not base.accepted:
                out.append(("und", "a failing file operation ends the run", f"{b} [{nm}]", base.why()))
                continue
            ops = [e for e in base.acc[0]["events"] if e[0] == "io"]
            for _, n, what in ops:
                F.I.inject = n
                r = run_one(F, texts(two), b, kw)
                F.I.inject = None
                if r.uns:
                    out.append(("und", "a failing file operation ends the run", f"{b} {what} {n} [{nm}]", r.why()))
                elif r.acc:
                    out.append(("bad", "a failing file operation ends the run", f"{b}{' with marking' if mk else ''}, {what} (operation {n}) [{nm}]",
                                "the run reports success although this operation failed"))
                else:
                    out.append(("ok", "a failing file operation ends the run"))
        return out

    # (E) work done per stage as inputs grow
    def job_grow(c):
        nm, (key, f, expands) = c
        out = []
        for F in (D if nm == "debug" else R,):
            import time
            t0 = time.time()
            lim = 9 if "tripling" not in key and "naming" not in key else 6
            if not expands:
                lim = 40
            pts = []
            for n in ((lim // 4, lim // 2, lim) if not expands else (lim - 4, lim - 2, lim)):
                F.I.calls = {}
                F.I.late = 0
                steps = F.I.step_limit
                F.I.step_limit = 200_000_000
                r = run_one(F, f(n), "c", {})
                F.I.step_limit = steps
                pts.append((n, dict(F.I.calls), r))
                F.I.calls = None
                if r.uns:
                    break
            if any(p[2].uns for p in pts):
                w = next(p[2] for p in pts if p[2].uns).why()
                out.append(("bad" if "step limit" in w or "recursion" in w else "und", "work grows polynomially", f"{key} [{nm}]", w))
                continue
            if not all(p[2].accepted for p in pts):
                # nothing says that these inputs are valid (C10 does); refusing them at any size is total, too
                out.append(("stat", "growth families refused", 1))
                continue
            if os.environ.get("VERIF_PROFILE"):
                print("slow", round(time.time() - t0, 1), key, flush=True)
            for cr in ("early", "late"):
                xs = [p[1].get(cr, 0) for p in pts]
                if cr == "late" and expands:
                    # relative to the number of fields of the fully expanded structs
                    xs = [x / expands(p[0]) * 100 for x, p in zip(xs, pts)]
                if xs[-1] < 50:
                    continue
                (n0, *_), (n1, *_), (n2, *_) = pts
                # degree of growth between the last two sizes
                import math
                deg = math.log(max(xs[2], 1) / max(xs[1], 1)) / math.log(n2 / n1)
                if deg > 3.6:
                    out.append(("bad", "work grows polynomially", f"{key}, {'before' if cr == 'early' else 'from'} lowering [{nm}]", f"bodies entered at n = {[p[0] for p in pts]}: {xs}"))
                else:
                    out.append(("ok", "work grows polynomially"))
        return out

    allv = set()

    def take(rs):
        keep = []
        for r in rs:
            if r[0] == "visited":
                allv.update(r[1])
            else:
                keep.append(r)
        ctx.merge(keep)
    import time
    for nm, jobs, fn in (("texts", covc, job_cov), ("catalogue", cat, job_cat), ("faults", [(b, mk) for b in bs for mk in (False, True)], job_fault),
                         ("growth", [(nm, f) for f in families() for nm in ("debug", "optimised")], job_grow)):
        t0 = time.time()
        take(parallel(jobs, fn))
        ctx.stat("seconds for the " + nm, round(time.time() - t0))

    # (F) inventories
    n, rows = differences(ctx, D, R)
    for tag, F in (("D", D), ("R", R)):
        us = unsafe_calls(F.db)
        nm = "debug" if tag == "D" else "optimised"
        for (k, i), (fn, item, span) in sorted(us.items(), key=lambda kv: str(kv[1])):
            if (tag, k, i) in allv:
                ctx.ok("unsafe operations reached with their preconditions met")
            else:
                ctx.undecided("unsafe operations reached with their preconditions met", f"{fn}: {item} at {span} [{nm}]", "no input of the catalogue reaches it")
    bysite = collections.Counter()
    for k, x in D.db.insts.items():
        b = x.get("body")
        if not b or x.get("crate") not in WS:
            continue
        for i, blk in enumerate(b["blocks"]):
            t = blk[1]
            if t[0] == "assert" and str(t[3]).startswith("overflow"):
                r = "arithmetic the optimised build does not check is exercised"
                if ("D", k, i) in allv:
                    ctx.ok(r)
                else:
                    ctx.undecided(r, f"{x['name']} {t[3]} at {t[5]}", "no input of the catalogue reaches it")
                bysite[str(t[3])] += 1
    dr, oth = loops(D.db)
    ctx.ok("loops consume an iterator", dr)
    for o in oth:
        ctx.undecided("loops consume an iterator", o, "loop without an iterator")
    ctx.visited |= {D.db.insts[s[1]]["name"] for s in allv if s[0] == "D" and s[1] in D.db.insts}
    cleanup(D)
    cleanup(R)
    ctx.assume = ["rustc's optimised configuration is represented by the MIR built with debug assertions and overflow checks off",
                  "the pest crate implements its grammar language; std, clap, convert_case, prettyplease and the allocator are trusted",
                  "nesting depth of structs is a resource bound: the work of the later stages follows the expanded size of a struct"]
    return ctx.finish(
        "Abstract interpretation of main() in the debug and in the optimised configuration on the same inputs; agreement of outcome and bytes, "
        "absence of undefined behaviour and of unbounded recursion, refusal of what exceeds the limits, reporting of failed file operations, growth of "
        "the work per stage, and an inventory of unsafe operations, unchecked arithmetic and loops.",
        grammar_texts=len(cov), catalogue=len(cat), differences=dict(n), difference_sites=len(rows), overflow_sites=dict(bysite), loops_driven=dr, loops_other=oth)


TGTLESS = Iface("IBase", [Method("b")])


def hash_of(s):
    import zlib
    return zlib.crc32(s.encode("utf-8", "surrogatepass"))


def fold(out):
    c = collections.Counter()
    rest = []
    for o in out:
        if o[0] == "ok":
            c[o[1]] += o[2] if len(o) > 2 else 1
        else:
            rest.append(o)
    return [("ok", k, n) for k, n in c.items()] + rest
