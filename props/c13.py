"""C13: the generated text is a function of the file set and the flags only.

For every file set the abstract trace of main() is computed for a reference world and for worlds that differ
in the working directory, the absolute location, the spelling of paths, symbolic links and the iteration order
of every hash table; the written names and bytes have to be equal. Reads of clocks, environment, process ids
or random sources on the way to the output are reported as such."""
from absint.front import final_files
from idlv.core import parallel
from idlv.run import *
from . import valid as V
from idlv.idl import *

MAIN = V.MAIN
ORDERS = ["reverse", "rotate", "mixed"]


def base_sets(thorough):
    rich, obj = V.rich(), V.rich_obj()
    h = len(rich) // 2
    yield "rich", {"a.idl": File(rich)}, [], True
    yield "rich-split", {"a.idl": File(rich[h:], ["b.idl"]), "b.idl": File(rich[:h])}, [], True
    yield "rich-inc", {"a.idl": File(rich[h:], ["b.idl"]), "inc/b.idl": File(rich[:h])}, ["inc"], True
    yield "rich-two-inc", {"a.idl": File(rich[h:], ["b.idl"]), "inc/b.idl": File(rich[1:h], ["c.idl"]), "inc2/c.idl": File(rich[:1])}, ["inc", "inc2"], True
    yield "rich-rel", {"a.idl": File(rich[h:], ["sub/b.idl"]), "sub/b.idl": File(rich[1:h], ["../c.idl"]), "c.idl": File(rich[:1])}, [], True
    yield "obj", {"a.idl": File(obj)}, [], False
    yield "obj-split", {"a.idl": File(obj[2:], ["b.idl"]), "b.idl": File(obj[:2])}, [], False
    yield "ambiguous", {"a.idl": File(rich[h:], ["b.idl"]), "inc/b.idl": File(rich[:h]), "inc2/b.idl": File([Struct("Other", [Field("uint8", "v")])])}, ["inc", "inc2"], True
    yield "struct-origin", {"Main.idl": File([Iface("IUse", [Method("go", [Param("in", "Big", "b"), Param("out", "Zs", "z"), Param("in", "IFar", "f")])], "IFar")], ["sub/Types.idl", "iface-x.idl"]),
                            "sub/Types.idl": File([Struct("Big", [Field("uint64", "w", 4)]), Struct("Zs", [Field("uint32", "w")])]), "iface-x.idl": File([Iface("IFar", [Method("z")])])}, [], True
    many = [Iface(f"I{n}", [Method(f"m{n}", [Param("in", f"S{n}", "s"), Param("in", "uint8", "z")])]) for n in ("zeta", "Alpha", "mid", "Q1", "beta")]
    many += [Struct(f"S{n}", [Field("uint32", "v"), Field("uint16", "w", 2)]) for n in ("zeta", "Alpha", "mid", "Q1", "beta")]
    yield "many", {"a.idl": File(many)}, [], True
    objs = [Struct("Lots", [Field("interface", n) for n in ("zz", "aa", "mm", "bb")]), Struct("Two", [Field("Lots", "l1"), Field("interface", "own")]),
            Iface("IL", [Method("go", [Param("in", "Lots", "q"), Param("out", "Two", "w")])])]
    yield "objs", {"a.idl": File(objs)}, [], False
    for k, fs, kw, j in V.filesets():
        if kw or not k.startswith(("split", "include/diamond", "include/triangle", "include/twice")) and not thorough:
            continue
        yield k, {p[3:]: f for p, f in fs.items()}, [], j


def worlds(fs, incs):
    """(label, files, kw) - the first one is the reference"""
    main = next(iter(fs))

    def at(root):
        return {root + "/" + p: f for p, f in fs.items()}
    yield "reference", at("/w"), dict(main="/w/" + main, include_paths=["/w/" + i for i in incs], cwd="/cwd")
    yield "cwd at input", at("/w"), dict(main="/w/" + main, include_paths=["/w/" + i for i in incs], cwd="/w")
    yield "cwd elsewhere", at("/w"), dict(main="/w/" + main, include_paths=["/w/" + i for i in incs], cwd="/w/zz")
    for root in ("/other/place", "/W", "/a b/c.idl/d", "/x/inc/sub/w", "/home/u-1/\u00e9", "/r"):
        yield "at " + root, at(root), dict(main=root + "/" + main, include_paths=[root + "/" + i for i in incs], cwd="/cwd")
    yield "relative", at("/w"), dict(main=main, include_paths=list(incs), cwd="/w")
    yield "relative ./", at("/w"), dict(main="./" + main, include_paths=["./" + i for i in incs], cwd="/w")
    yield "relative from parent", at("/w"), dict(main="w/" + main, include_paths=["w/" + i for i in incs], cwd="/")
    yield "relative ..", at("/w"), dict(main="../" + main, include_paths=["../" + i for i in incs], cwd="/w/zz")
    yield "redundant", at("/w"), dict(main="/w/../w/./" + main, include_paths=["/w/./" + i + "/../" + i + "/" for i in incs], cwd="/cwd")
    yield "double slash", at("/w"), dict(main="/w//" + main, include_paths=["/w//" + i + "//" for i in incs], cwd="/cwd")
    yield "symlinked directory", at("/w"), dict(main="/l/" + main, include_paths=["/l/" + i for i in incs], cwd="/cwd", links={"/l": "/w"})
    yield "symlinked include dirs", at("/w"), dict(main="/w/" + main, include_paths=[f"/li{n}" for n in range(len(incs))], cwd="/cwd",
                                                   links={f"/li{n}": "/w/" + i for n, i in enumerate(incs)})
    yield "symlink chain", at("/w"), dict(main="l/" + main, include_paths=["l/" + i for i in incs], cwd="/q", links={"/q/l": "../m", "/m": "w"})
    yield "repeated include dirs", at("/w"), dict(main="/w/" + main, include_paths=["/w/" + i for i in incs for _ in (0, 1)], cwd="/cwd")
    st = main.rsplit("/", 1)[-1].rsplit(".", 1)[0]
    junk = {d + "/" + n: "junk" for d in ("/cwd", "/out") for n in (st + ".h", st + ".hpp", st + ".rs", st.lower() + ".rs", st + "_invoke.h", "object.h", main.rsplit("/", 1)[-1],
                                                                    "b.idl", "b.h", "o", "o.h", "IZbase.java", "izbase.rs", st + ".java", "idlc.toml", ".idlc", "Cargo.toml", "mod.rs", "lib.rs")}
    yield "populated directories", {**at("/w"), **junk}, dict(main="/w/" + main, include_paths=["/w/" + i for i in incs], cwd="/cwd")
    beside = {"/w/" + n: "junk" for n in (st + ".h", st + ".hpp", st + ".rs", "object.h", "b.h", "Cargo.toml", ".idlc", "README", "idlc.toml", st + ".idl.bak")}
    yield "populated input directory", {**at("/w"), **beside}, dict(main="/w/" + main, include_paths=["/w/" + i for i in incs], cwd="/w")
    yield "symlinked input", at("/w"), dict(main="/z/alias-name.idl", include_paths=["/w/" + i for i in incs], cwd="/cwd", links={"/z/alias-name.idl": "/w/" + main})
    if not any("/" in i for f in fs.values() if isinstance(f, File) for i in f.includes):
        # files that are links into another directory
        store = {f"/store/{n}.dat": f for n, (p, f) in enumerate(fs.items())}
        if len(fs) == 1 and False:
            yield "linked files", store, {}


def run(ctx):
    F = load()
    jobs = []
    for k, fs, incs, j in base_sets(ctx.thorough):
        for b in BACKENDS:
            if b != "java" or j:
                jobs.append((k, fs, incs, b))
    jobs.append(("flags", {"a.idl": File(V.rich())}, [], "c+nto"))

    def outs(fs, b, kw):
        kk = dict(kw)
        if b == "c+nto":
            b = "c"
            kk["no_typed_objects"] = True
        tx = texts(fs)
        res = compile_(F, tx, b, **kk)
        if res.uns:
            return "uns", res.why()
        if not res.accepted:
            return "rej", res.why()
        if len(res.acc) != 1:
            return "uns", "several accepting traces"
        r = res.acc[0]
        fin = final_files(r, tx)
        return "ok", {p: inst(t) for p, t in fin.items() if tx.get(p) != t}, [e for e in r["events"] if e[0] in ("env", "hash_value")]

    def job(c):
        k, fs, incs, b = c
        res = []
        ref = None
        F.m.hash_order = "insertion"
        for label, files, kw in worlds(fs, incs):
            o = outs(files, b, kw)
            key = f"{k} [{b}] {label}"
            if label == "reference":
                if o[0] != "ok":
                    return [("und" if o[0] == "uns" else "stat", "same output", key, str(o[1])) if o[0] == "uns" else ("stat", "reference rejected (a C10 question)", 1)]
                ref = o[1]
                for e in o[2]:
                    res.append(("bad" if e[0] == "env" and e[1] not in ("RUST_BACKTRACE", "RUST_LOG") else "ok",
                                "no ambient input", f"{k} [{b}] {e[:2]}", "the generated text may depend on it"))
                res.append(("ok", "same output"))
                for od in ORDERS:
                    F.m.hash_order = od
                    o2 = outs(files, b, kw)
                    F.m.hash_order = "insertion"
                    key2 = f"{k} [{b}] hash order {od}"
                    res.append(verdict("independent of hash order", key2, ref, o2, files))
                continue
            res.append(verdict("same output", key, ref, o, files))
        return res

    def verdict(rule, key, ref, o, files):
        if o[0] == "uns":
            return ("und", rule, key, o[1])
        if o[0] == "rej":
            return ("bad", rule, key, "rejected here, accepted in the reference world: " + o[1])
        if o[1] != ref:
            d = []
            for p in sorted(set(ref) | set(o[1])):
                x, y = ref.get(p), o[1].get(p)
                if x != y:
                    if x is None or y is None:
                        d.append(f"{p}: written only in {'this' if x is None else 'the reference'} world")
                    else:
                        for n, (lx, ly) in enumerate(zip(x.splitlines(), y.splitlines())):
                            if lx != ly:
                                d.append(f"{p}:{n + 1}: {lx!r} / {ly!r}")
                                break
                        else:
                            d.append(f"{p}: lengths {len(x)} / {len(y)}")
            return ("bad", rule, key, "\n".join(d[:6]))
        return ("ok", rule)
    ctx.merge(parallel(jobs, job))
    cleanup(F)
    ctx.samples = [{"set": k, "files": {p: f.text() if isinstance(f, File) else f for p, f in fs.items()}, "backend": b} for k, fs, i, b in jobs[::max(1, len(jobs) // 6)]]
    return ctx.finish("Equality of the written bytes across abstract runs of main() in worlds differing in location, spelling, links, working directory and hash order.",
                      sets=len(jobs))
