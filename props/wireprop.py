"""Runs the wire obligations (ll.wire) over the method catalogue (wirecat) for one property."""
import os
import sys
import time

from idlv import run as R
from idlv.core import parallel
from idlv.idl import Iface
from . import wirecat as W


def objecty(params):
    return any(p.ty in ("interface", "ITgt") or p.ty in W.OBJSTRUCTS for p in params)


def jobs(prop, tier):
    """(kind, payload, langs, stubs, skels)"""
    ms = []
    seen = set()
    for k, q in W.methods(tier):
        t = ",".join(p.text() for p in q)
        if t in seen:
            continue
        seen.add(t)
        if prop == "C05" and not objecty(q):
            continue
        ms.append((k, q))
    plain = [m for m in ms if not W.pathy(m[0])]
    stubs, skels = prop != "C04", True
    if prop == "C07":
        # numbering does not look at parameters: a spread of them will do
        plain = plain[::5]
    out = []
    for k, files, main, iface in W.split():
        out.append(("decls", (k, None, iface, files, main), W.LANGS, stubs, skels))
    for k, decls, iface in W.chain():
        out.append(("decls", (k, W.with_env(decls), iface, None, W.G), W.LANGS, stubs, skels))
    if prop == "C07":
        for k, decls, iface in W.chain_ops(tier):
            out.append(("decls", (k, W.with_env(decls), iface, None, W.G), W.LANGS, stubs, skels))
    for m in ms:
        if W.pathy(m[0]):
            out.append(("batch", [m], W.LANGS if tier == "thorough" else ("c",), stubs, skels))
    spec = {k for k, _ in W.special()}
    sp = [m for m in plain if m[0] in spec]
    for b in [*W.batches(sp, 3), *W.batches([m for m in plain if m[0] not in spec])]:
        out.append(("batch", b, W.LANGS, stubs, skels))
    return out


def work(prop):
    def f(job):
        t0 = time.time()
        kind, x, langs, stubs, skels = job
        if kind == "batch":
            o, stat = W.job(x, langs, stubs, skels)
        else:
            key, decls, iface, files, main = x
            o, stat = W.analyse(decls, iface, langs, stubs, skels, files=files, main=main, key=key)
            o = [("und", *r[1:]) if r[0] == "cerr" else r for r in o]
        res = []
        n = {}
        for st, cats, rule, key, detail in o:
            if prop not in cats:
                continue
            if st == "ok":
                n[rule] = n.get(rule, 0) + 1
            else:
                res.append((st, rule, key, detail))
        res += [("ok", r, c) for r, c in n.items()]
        res += [("stat", k, v) for k, v in stat.items()]
        if os.environ.get("VERIF_PROFILE"):
            print(f"{time.time() - t0:7.1f} s {kind} {x[0] if kind == 'decls' else [m[0] for m in x]} {langs}", file=sys.stderr)
        res.append(("visited", {W.FRONT.db.insts[x]["name"] for x in W.FRONT.I.visited}))
        if kind == "batch":
            res.append(("stat", "method shapes", len(x)))
        return res
    return f


def run(ctx, prop, explanation, extra=None):
    W.FRONT = R.load()
    js = jobs(prop, ctx.tier)
    if extra:
        ctx.merge(extra(ctx))
    ctx.merge(parallel(js, work(prop), deadline=time.time() + (3000 if ctx.thorough else 700)))
    R.cleanup(W.FRONT)
    return ctx.finish(explanation, method_batches=len(js))
