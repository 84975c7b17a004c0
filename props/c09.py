"""C09: every file set of the violation catalogue is refused on every abstract trace of main() (all
back ends) and of Language::generate()."""
from idlv.core import parallel
from idlv.run import *
from .c09cat import catalogue


def run(ctx):
    cat = catalogue()
    F = load()
    full = [b for b in BACKENDS]

    def job(c):
        k, fs, rule, kw = c
        out = []
        wide = ctx.thorough or k.endswith(("/alone", "/mixed")) or rule in ("grammar", "include-cycle", "repeated-attribute") \
            and not k.endswith("/included")
        for b in (full if wide else ["c"]):
            res = compile_(F, fs, b, **kw)
            key = k if b == "c" else f"{k} [{b}]"
            if res.uns:
                out.append(("und", rule, key, res.why()))
            elif res.rejected:
                out.append(("ok", rule))
            else:
                out.append(("bad", rule, key, "accepted: " + res.why() + "\n" +
                            "\n".join(f"-- {p}\n{t}" for p, t in texts(fs).items())))
        return out
    ctx.merge(parallel(cat, job))
    visited = {F.db.insts[x]["name"] for x in F.I.visited}
    L = load(lib=True) if not F.own else Front(F.mirdir + "/idlc.lib.json", extract.REPO)

    def jobl(c):
        k, fs, rule, kw = c
        res = lib_(L, fs, **kw)
        if res.uns:
            return [("und", rule + " (library)", k, res.why())]
        if res.rejected:
            return [("ok", rule + " (library)")]
        return [("bad", rule + " (library)", k, "accepted by Language::generate\n" +
                 "\n".join(f"-- {p}\n{t}" for p, t in texts(fs).items()))]
    ctx.merge(parallel(cat, jobl))
    cleanup(F)
    ctx.samples = [{"shape": c[0], "text": texts(c[1])} for c in cat[::max(1, len(cat) // 8)]]
    return ctx.finish(
        "Abstract interpretation of the compiler's MIR (main() for every back end and the library entry point) on a "
        "catalogue of file sets, each violating exactly one documented restriction, alone and surrounded by valid "
        "declarations; every abstract trace has to end in a panic or a non-zero exit.", shapes=len(cat))
