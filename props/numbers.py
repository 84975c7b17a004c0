"""Shapes and probes for numbered declarations (errors, op-codes) of interface chains."""
import itertools
import time

from idlv.core import parallel
from idlv.run import *
from idlv.idl import *
from ll import tool
from . import target as T
from . import wirecat as W

MAIN = "/w/a.idl"
LOW = "/w/low.idl"
MID = "/w/mid.idl"
ps = W.ps


def mixed(i, w, e, order):
    """nodes of level i: w methods, e errors, consts in between; `order` varies the interleaving"""
    ms = [Method(f"{'qazmwsx'[(3 * j + i) % 7]}{i}x{j}", ps("in uint32") if j % 2 else ps("out uint32") if j % 3 else [], j % 3 == 2, doc="   * text\n   " if j == 1 else None) for j in range(w)]
    es = [Error(f"{'ZEYMDXC'[(3 * j + i) % 7]}{i}_{j}") for j in range(e)]
    cs = [Const("uint8", f"K{i}x{j}", str(j)) for j in range(min(3, w))]
    if order == 0:
        return ms + es + cs
    if order == 1:
        return cs + es + ms
    if order == 2:
        return [x for t in itertools.zip_longest(ms, cs, es) for x in t if x is not None]
    return [x for t in itertools.zip_longest(es[::-1], ms[::-1]) for x in t if x is not None] + cs


def shapes(thorough):
    """(key, files, interfaces to look at)"""
    widths = [((1, 1), (1, 1)), ((2, 0, 3), (0, 2, 1)), ((0, 0, 1), (1, 0, 0)), ((3, 1, 4, 1, 5), (2, 7, 1, 8, 2)), ((1,) * 8, (1,) * 8), ((17, 2), (3, 17)), ((0, 5), (0, 5)), ((7,), (7,)), ((0,), (0,)), ((2, 2), (0, 0)), ((1,) * 20, (2,) * 20)]
    if thorough:
        widths += [(w, e) for w in itertools.product((0, 1, 2), repeat=3) for e in itertools.product((0, 2), repeat=3)]
    for k, (ws, es) in enumerate(widths):
        for order in range(4):
            ds = []
            for i, (w, e) in enumerate(zip(ws, es)):
                ds.append(Iface(f"I{'ZYXWVUTS'[i % 8]}{i}", mixed(i, w, e, order), ds[-1].name if ds else None))
            for rev in (False, True):
                if rev and (order not in (0, 2) or len(ds) == 1):
                    continue
                key = f"{'-'.join(map(str, ws))}/{'-'.join(map(str, es))} order {order}"
                if not rev:
                    yield key, {MAIN: File(ds)}, [d.name for d in ds]
                else:
                    # split over files: the upper half comes from an included file
                    h = len(ds) // 2
                    yield key + " split", {LOW: File(ds[:h]), MAIN: File(ds[h:], ["low.idl"])}, [d.name for d in ds]
    for key, pats in (("levels without errors", [((1, 1, 1), e) for e in itertools.product((0, 2), repeat=3)] + [((1,) * 5, (2, 0, 0, 1, 0)), ((1,) * 5, (1, 0, 1, 0, 2)), ((0, 1, 0, 0, 1), (1, 0, 0, 0, 1))]),
                      ("levels without methods", [(w, (1, 1, 1)) for w in itertools.product((0, 2), repeat=3)] + [((2, 0, 0, 1, 0), (1,) * 5), ((1, 0, 1, 0, 2), (1,) * 5), ((1, 0, 0, 0, 1), (0, 1, 0, 0, 1))])):
        # several chains in one file; the upper levels of every other chain come from an included file
        for over in (False, True):
            lo, hi = [], []
            for c, (ws, es) in enumerate(pats):
                if c % 2 != over:
                    continue
                up = None
                for i, (w, e) in enumerate(zip(ws, es)):
                    d = Iface(f"I{'QZ'[i % 2]}{'abcdefghijklm'[c]}{i}", mixed(i, w, e, c % 4), up)
                    up = d.name
                    (lo if over and i < 2 else hi).append(d)
            fs = {LOW: File(lo), MAIN: File(hi, ["low.idl"])} if over else {MAIN: File(hi)}
            yield key + (" split" if over else ""), fs, [d.name for d in lo + hi]
    root = Iface("IRoot", mixed(0, 2, 2, 2))
    l, r = Iface("IL", mixed(1, 1, 3, 0), "IRoot"), Iface("IR", mixed(2, 2, 1, 1), "IRoot")
    yield "siblings", {MAIN: File([root, l, r, Iface("IM", mixed(3, 1, 1, 2), "IL"), Iface("IN2", mixed(4, 1, 1, 2), "IR")])}, ["IRoot", "IL", "IR", "IM", "IN2"]
    yield "siblings over files", {LOW: File([root]), MID: File([l], ["low.idl"]), MAIN: File([r, Iface("IM", mixed(3, 1, 1, 2), "IL")], ["mid.idl", "low.idl"])}, ["IRoot", "IL", "IR", "IM"]
    yield "unrelated before and after", {MAIN: File([Iface("IQ", mixed(5, 3, 4, 0)), root, Iface("IP", mixed(6, 2, 2, 1)), l, Iface("IO", mixed(7, 1, 1, 0))])}, ["IQ", "IRoot", "IP", "IL", "IO"]
    yield "many", {MAIN: File([Iface("IW", mixed(0, 300, 300, 2)), Iface("IV", mixed(1, 5, 5, 2), "IW")])}, ["IW", "IV"]
    yield "same names in siblings", {MAIN: File([Iface("IRoot", [Error("EA"), Method("ma")]), Iface("IL", [Error("EX"), Method("mx")], "IRoot"), Iface("IR", [Error("EY"), Error("EX"), Method("my"), Method("mx")], "IRoot")])}, ["IRoot", "IL", "IR"]
    yield "structs and consts around", {MAIN: File([Const("uint32", "KA", "1"), Struct("SS", [Field("uint32", "v")]), root, Struct("ST", [Field("uint64", "v")]), Const("uint32", "KB", "1"), l])}, ["IRoot", "IL"]


def probes(F, want, thorough, langs=T.LANGS):
    """want(sp, iface) -> [(label, expected, {lang: spec})]"""
    jobs = list(shapes(thorough))

    def job(j):
        key, files, ifs = j
        sp = Spec(*files.values())
        out = []
        its = []
        for n in ifs:
            its += [(f"{n}.{lab}", ex, spec) for lab, ex, spec in want(sp, n)]
        if not its:
            return [("ok", "nothing to number")]
        with tool.Scratch() as s:
            g = T.Gen(s, F, files)
            res = T.probe_all(g, MAIN, [(i, x[2]) for i, x in enumerate(its)], langs)
        for lang, rs in res.items():
            out.append(("stat", f"{lang} numbers", len(rs)))
            for i, r in rs.items():
                lab, ex, _ = its[i]
                k = f"{key}: {lab} [{lang}]"
                if r[0] == "gen":
                    out.append(("und" if r[1] == "uns" else "bad", "number", k, r[2]))
                elif r[0] == "err?":
                    out.append(("und", "number", k, r[1]))
                elif r[0] == "err":
                    out.append(("bad", "number", k, "no such name: " + r[1]))
                elif r[0] != "int" or r[3] != ex:
                    out.append(("bad", "number", k, f"is {r[3]}, expected {ex}"))
                else:
                    out.append(("ok", "number"))
        out.append(("visited", {F.db.insts[x]["name"] for x in F.I.visited}))
        return out
    return parallel(jobs, job, deadline=time.time() + (1500 if thorough else 500))
