"""Runs of the compiler's abstract semantics on IDL shapes."""
import os
import shutil

from absint.front import Front, outputs
from absint.values import instantiate, has_hole, hole, tshow, Unsupported

from . import extract

BACKENDS = {
    "c": dict(), "c_skel": dict(skel=True), "cpp": dict(cpp=True), "cpp_skel": dict(cpp=True, skel=True),
    "rust": dict(rust=True), "java": dict(java=True),
}


def load(release=False, lib=False):
    d = os.environ.get("VERIF_MIR_REL" if release else "VERIF_MIR")
    own = False
    if not d:
        d = extract.extract(release)
        own = True
    f = Front(os.path.join(d, "idlc.lib.json" if lib else "idlc.bin.json"), extract.REPO)
    f.mirdir = d
    f.db.overflow_checks = not release
    f.own = own
    return f


def cleanup(f):
    if f.own:
        shutil.rmtree(f.mirdir, ignore_errors=True)


def inst(text):
    """instantiate holes by their own names"""
    if not has_hole(text):
        return text

    def nm(n, kind):
        if isinstance(n, str):
            return inst(n)
        if isinstance(n, tuple) and n[0] == "case" and n[1] in ("lower", "upper"):
            x = nm(n[2], kind)
            return x.lower() if n[1] == "lower" else x.upper()
        raise Unsupported("hole " + repr(n))
    return instantiate(text, nm)


def texts(files):
    return {p: (f if isinstance(f, str) else f.text()) for p, f in files.items()}


class Res:
    """Summary of the abstract traces of one compilation."""

    def __init__(self, recs):
        self.recs = recs
        self.uns = [r["unsupported"] for r in recs if r["kind"] == "unsupported"]
        self.acc = [r for r in recs if r["kind"] == "ok" or (r["kind"] == "exit" and r["exit"] == 0)]
        self.rej = [r for r in recs if r["kind"] == "panic" or (r["kind"] == "exit" and r["exit"] != 0)]

    @property
    def accepted(self):
        return bool(self.acc) and not self.rej and not self.uns

    @property
    def rejected(self):
        return bool(self.rej) and not self.acc and not self.uns

    @property
    def out(self):
        return {p: inst(t) for p, t in outputs(self.acc[0]).items()}

    def why(self):
        s = []
        for r in self.recs[:3]:
            s.append(f"{r['kind']} {r.get('panic') or r.get('exit') or r.get('unsupported') or ''} "
                     f"{r.get('where') or ''} {r['cond'] or ''}")
        return "; ".join(x[:400] for x in s)


def compile_(F, files, backend="c", main="/w/a.idl", **kw):
    k = dict(BACKENDS[backend])
    k.update(kw)
    return Res(F.compile(texts(files), main=main, **k))


def lib_(F, files, main="/w/a.idl", **kw):
    return Res(F.libgen(texts(files), main=main, **kw))
