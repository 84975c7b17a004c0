"""C14: edits and flags without interface meaning.

The generated text of a rich file is computed abstractly; it has to stay the same under every whitespace edit
and every ordinary comment put between any two tokens where the variant is accepted; documentation changes
only comments, and only those directly in front of the next method; a marking only prepends comments;
untyped objects only replaces type names in C."""
import re

from absint.front import final_files
from idlv.core import parallel
from idlv.run import *
from . import valid as V
from idlv.idl import *

MAIN = V.MAIN
TOK = re.compile(r'"[^"]*"|//[^\n]*|/\*.*?\*/|#\[[a-z]+\]|[A-Za-z_][A-Za-z0-9_]*|-?0x[0-9a-fA-F]+|-?[0-9]+(?:\.[0-9]+)?|\};|\);|\s+|.', re.S)


def toks(t):
    return [x for x in TOK.findall(t)]


def strip_comments(text):
    """C/C++/Rust/Java text without comments; strings are kept"""
    out = re.sub(r'"(?:[^"\\\n]|\\.)*"|//[^\n]*|/\*.*?\*/', lambda m: m.group(0) if m.group(0)[0] == '"' else " ", text, flags=re.S)
    return out


def norm(text):
    return re.sub(r"\s+", " ", strip_comments(text)).strip()


def sources():
    h = V.rich()
    yield "rich", File(h).text(), {}, True
    yield "rich-inc", File(h[5:], ["b.idl"]).text(), {"/w/b.idl": File(h[:5])}, True
    yield "obj", File(V.rich_obj()).text(), {}, False


WSP = ["\n", "\t", "  ", "\r\n", " \n \t "]
COM = ["/* c */", "// line\n", "/**/", "/* multi\n * line */", "//\n", "/* interface X { method y(); }; */", "/***/", "// doc? /** no\n", "/*\n*/", "// in uint8 x\n"]
NOWS = {"};": 0, ");": 0}


def edits(t, thorough):
    """(label, text) of every single-point edit"""
    ts = toks(t)
    for i, x in enumerate(ts):
        if x.isspace():
            for n, w in enumerate(WSP):
                if thorough or (i + n) % 2 == 0 or n == 0:
                    yield f"token {i} {w!r} for whitespace", "".join(ts[:i] + [w] + ts[i + 1:])
    for i in range(len(ts) + 1):
        cs = COM if thorough else [COM[i % len(COM)], COM[(i * 3 + 1) % len(COM)]]
        for c in cs:
            yield f"token {i} {c!r} inserted", "".join(ts[:i] + [c] + ts[i:])
            if i < len(ts) and ts[i].isspace():
                yield f"token {i} {c!r} between blanks", "".join(ts[:i] + [" " + c + " "] + ts[i:])
        if i and i < len(ts) and not ts[i].isspace() and not ts[i - 1].isspace():
            if not (re.match(r"\w", ts[i]) and re.match(r"\w", ts[i - 1][-1])):
                yield f"token {i} blank inserted", "".join(ts[:i] + [" "] + ts[i:])
                yield f"token {i} newline inserted", "".join(ts[:i] + ["\n"] + ts[i:])


def globaledits(t):
    yield "crlf", t.replace("\n", "\r\n")
    yield "no newline at end", t.rstrip()
    yield "blank lines", t.replace("\n", "\n\n\n")
    yield "trailing blanks", t.replace("\n", "  \t\n")
    yield "tabs", t.replace("  ", "\t")
    yield "deep indent", t.replace("  ", " " * 12)
    yield "header comment", "/* (c)\n * someone\n */\n" + t
    yield "comment per line", t.replace("\n", " // note\n") if "#[" not in t else re.sub(r"(?m)^(?!\s*#\[)(.*)$", r"\1 // note", t)
    yield "block per line", re.sub(r"(?m)^(?!\s*#\[)(.+)$", r"\1 /* note */", t)
    yield "one line", re.sub(r"\s+", " ", t)
    yield "no blanks", re.sub(r"\s*([,;(){}=:])\s*", r"\1", t)
    yield "doc and comment", t


DOCS = ["/**\n * text\n */", "/**\n * @param[in] a  the a\n * @param[out] b\n *\n * more\n */", "/**\n*/", "/**\n plain words\n   indented\n */",
        "/**\n * quote \" and 'c' \\ back\n */", "/**\n * // slashes\n */", "/**\n * method fake(in uint8 x);\n * };\n */", "/**\n\n\n * blank lines\n\n */",
        "/**\n * \u00e4\u4e16\u754c\n */", "/**\n * #define X 1\n * */", "/**\n * trailing blanks   \n */"]


def run(ctx):
    F = load()

    def outs(t, inc, b, **kw):
        tx = {MAIN: t, **texts(inc)}
        if "_mark" in kw:
            tx["/w/m.txt"] = kw.pop("_mark")
            kw["marking"] = "/w/m.txt"
        res = compile_(F, tx, b, **kw)
        if res.uns:
            return "uns", res.why()
        if res.rejected:
            return "rej", res.why()
        if not res.accepted or len(res.acc) != 1:
            return "uns", "mixed traces"
        fin = final_files(res.acc[0], tx)
        return "ok", {p: inst(x) for p, x in fin.items() if tx.get(p) != x}

    def diff(a, b):
        for p in sorted(set(a) | set(b)):
            x, y = a.get(p), b.get(p)
            if x != y:
                if x is None or y is None:
                    return f"{p}: written in one case only"
                for n, (lx, ly) in enumerate(zip(x.splitlines(), y.splitlines())):
                    if lx != ly:
                        return f"{p}:{n + 1}: {lx!r} became {ly!r}"
                return f"{p}: lengths {len(x)} / {len(y)}"
        return None

    jobs = []
    for k, t, inc, j in sources():
        bs = [b for b in BACKENDS if j or b != "java"]
        es = list(edits(t, ctx.thorough)) if k != "rich-inc" or ctx.thorough else []
        for i in range(0, len(es), 40):
            jobs.append(("edits", k, t, inc, bs, es[i:i + 40]))
        jobs.append(("edits", k, t, inc, bs, list(globaledits(t))))
        jobs.append(("docs", k, t, inc, bs, None))
        jobs.append(("flags", k, t, inc, bs, None))

    cache = {}

    def ref(k, t, inc, b):
        if (k, b) not in cache:
            cache[(k, b)] = outs(t, inc, b)
        return cache[(k, b)]

    def job(c):
        kind, k, t, inc, bs, es = c
        if kind == "edits":
            return j_edits(k, t, inc, bs, es)
        if kind == "docs":
            return j_docs(k, t, inc, bs)
        return j_flags(k, t, inc, bs)

    def j_edits(k, t, inc, bs, es):
        res = []
        for n, (label, t2) in enumerate(es):
            which = bs if ctx.thorough or len(es) < 20 else [bs[n % len(bs)], bs[(n // 2 + 3) % len(bs)]]
            for b in dict.fromkeys(which):
                r = ref(k, t, inc, b)
                if r[0] != "ok":
                    res.append(("und", "whitespace and comments", f"{k} [{b}]", "reference: " + str(r[1])))
                    continue
                o = outs(t2, inc, b)
                key = f"{k} [{b}] {label}"
                if o[0] == "uns":
                    res.append(("und", "whitespace and comments", key, o[1]))
                elif o[0] == "rej":
                    res.append(("stat", "variants the grammar does not admit", 1))
                else:
                    d = diff(r[1], o[1])
                    res.append(("bad", "whitespace and comments", key, d + "\n" + t2) if d else ("ok", "whitespace and comments"))
        return res

    def mpos(t):
        """(index of the text where the declaration of method n starts, its name)"""
        out = []
        for m in re.finditer(r"(?m)^  (?:#\[optional\]\n  )?method (\w+)", t):
            out.append((m.start() + 2, m.group(1)))
        return out

    def j_docs(k, t, inc, bs):
        res = []
        ms = mpos(t)
        for mi, (pos, name) in enumerate(ms):
            for di, doc in enumerate(DOCS):
                if not ctx.thorough and (di + mi) % 3 and di > 1:
                    continue
                t2 = t[:pos] + doc + "\n  " + t[pos:]
                for b in bs:
                    r, o = ref(k, t, inc, b), outs(t2, inc, b)
                    key = f"{k} [{b}] doc {di} on {name}"
                    if r[0] != "ok" or o[0] == "uns":
                        res.append(("und", "documentation", key, str(o[1])))
                        continue
                    if o[0] == "rej":
                        res.append(("bad", "documentation", key, "a documentation block makes the file be rejected: " + o[1]))
                        continue
                    if doc == DOCS[2]:
                        d = next((p for p in r[1] if norm(r[1][p]) != norm(o[1].get(p, ""))), None)
                        res.append(("bad", "documentation", key, f"{d}: code changed") if d else ("ok", "documentation"))
                        continue
                    p = docproblem(r[1], o[1], name, doc, b, mi, ms, t)
                    res.append(("bad", "documentation", key, p + "\n" + t2) if p else ("ok", "documentation"))
                    # ordinary comments around the block leave everything as it is
                    if di < 2:
                        for v in (t[:pos] + doc + "\n  // ordinary\n  " + t[pos:], t[:pos] + "/* ordinary */ " + doc + "\n  " + t[pos:],
                                  t[:pos] + doc + " /* ordinary */\n\n  " + t[pos:]):
                            o3 = outs(v, inc, b)
                            if o3[0] == "ok":
                                d = diff(o[1], o3[1])
                                res.append(("bad", "whitespace and comments", key + " with an ordinary comment", d + "\n" + v) if d
                                           else ("ok", "whitespace and comments"))
            # a block in front of anything else leaves the code alone
        for m in re.finditer(r"(?m)^(?:  error|  const|const|struct|interface|  \w+(?:\[\d+\])? \w+;)", t):
            t2 = t[:m.start()] + DOCS[1] + "\n" + t[m.start():]
            for b in bs:
                r, o = ref(k, t, inc, b), outs(t2, inc, b)
                key = f"{k} [{b}] doc before {m.group(0).strip()!r} at {m.start()}"
                if r[0] != "ok" or o[0] == "uns":
                    res.append(("und", "documentation", key, str(o[1])))
                elif o[0] == "rej":
                    res.append(("stat", "variants the grammar does not admit", 1))
                else:
                    d = diff(r[1], o[1])
                    res.append(("bad", "documentation", key, f"no method follows, but {d}\n{t2}") if d else ("ok", "documentation"))
        return res

    def docproblem(a, b, name, doc, back, mi, ms, t):
        if set(a) != set(b):
            return f"files {sorted(a)} became {sorted(b)}"
        words = [w for w in ("text", "@param[in] a", "plain words", "fake", "blank lines", "trailing blanks", "slashes") if w in doc]
        hit = False
        for p in a:
            x, y = a[p], b[p]
            if norm(x) != norm(y):
                return f"{p}: more than comments changed"
            # what was inserted, as runs of text
            for ins, after in inserted(x, y):
                if not ins.strip():
                    continue
                hit = True
                if strip_comments(ins).strip():
                    return f"{p}: inserted text is not a comment: {ins[:80]!r}"
                rest = norm(after)[:600]
                first = next((n for n in re.findall(r"\w+", rest) if any(n.endswith(q) or n == q or n.endswith("#" + q) for _, q in ms)), None)
                if first is None or not (first == name or first.endswith("_" + name) or first.endswith(name)):
                    return f"{p}: the comment precedes {first!r}, not {name!r}: {ins[:60]!r}"
        if not hit and words and back in ("c", "cpp", "rust", "java") and False:
            return "the documentation does not appear"
        return None

    def inserted(x, y):
        import difflib
        xs, ys = x.splitlines(True), y.splitlines(True)
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, xs, ys, autojunk=False).get_opcodes():
            if tag in ("insert", "replace"):
                # compare character-wise inside replaced lines
                xa, ya = "".join(xs[i1:i2]), "".join(ys[j1:j2])
                pre = 0
                while pre < min(len(xa), len(ya)) and xa[pre] == ya[pre]:
                    pre += 1
                suf = 0
                while suf < min(len(xa), len(ya)) - pre and xa[-1 - suf] == ya[-1 - suf]:
                    suf += 1
                yield ya[pre:len(ya) - suf], "".join(ys[j1:j2])[len(ya) - suf:] + "".join(ys[j2:j2 + 40])
            elif tag == "delete" and "".join(xs[i1:i2]).strip():
                yield "<deleted>", ""

    def j_flags(k, t, inc, bs):
        res = []
        for b in bs:
            r = ref(k, t, inc, b)
            if r[0] != "ok":
                res.append(("und", "marking", f"{k} [{b}]", str(r[1])))
                continue
            for mk in ("one line", "one\ntwo\n", "\n\nblank\n\n", "with // and # and \" quote\n", "x" * 500 + "\n", "\u00e4\u4e16\n", "tab\tinside\n", "crlf\r\nline\r\n", "", "\n"):
                o = outs(t, inc, b, _mark=mk)
                key = f"{k} [{b}] marking {mk[:20]!r}"
                if o[0] == "uns":
                    res.append(("und", "marking", key, o[1]))
                    continue
                if o[0] == "rej":
                    res.append(("bad", "marking", key, "rejected with a marking: " + o[1]))
                    continue
                p = None
                if set(o[1]) != set(r[1]):
                    p = "set of files changed"
                else:
                    for f in r[1]:
                        if not o[1][f].endswith(r[1][f]):
                            p = f"{f}: the part after the marking changed"
                            break
                        head = o[1][f][:len(o[1][f]) - len(r[1][f])]
                        if strip_comments(head).strip():
                            p = f"{f}: the prepended text is not a comment: {head[:80]!r}"
                            break
                        if head and not head.endswith("\n"):
                            p = f"{f}: the prepended block runs into the generated text: {head[-60:]!r}"
                            break
                        if mk == "" and head.strip():
                            p = f"{f}: an empty marking prepends {head!r}"
                            break
                        for ln in mk.splitlines():
                            if ln.strip() and ln.strip() not in head:
                                p = f"{f}: marking line {ln!r} is lost"
                res.append(("bad", "marking", key, p) if p else ("ok", "marking"))
            # untyped objects: a C matter only
            o = outs(t, inc, b, no_typed_objects=True)
            key = f"{k} [{b}] no-typed-objects"
            if o[0] == "uns":
                res.append(("und", "untyped objects", key, o[1]))
            elif o[0] == "rej":
                res.append(("bad", "untyped objects", key, "rejected: " + o[1]))
            elif b in ("c", "c_skel"):
                p = untyped(r[1], o[1], t, inc)
                res.append(("bad", "untyped objects", key, p) if p else ("ok", "untyped objects"))
            else:
                d = diff(r[1], o[1])
                res.append(("bad", "untyped objects", key, d) if d else ("ok", "untyped objects"))
            o = outs(t, inc, b, allow_undefined_behavior=True)
            key = f"{k} [{b}] allow-undefined-behavior"
            if o[0] == "uns":
                res.append(("und", "undefined-behaviour flag on valid input", key, o[1]))
            else:
                d = diff(r[1], o[1]) if o[0] == "ok" else "rejected"
                res.append(("bad", "undefined-behaviour flag on valid input", key, d) if d else ("ok", "undefined-behaviour flag on valid input"))
        return res

    def untyped(a, b, t, inc):
        ifs = set(re.findall(r"interface (\w+)", t)) | {d.name for f in inc.values() for d in f.decls if isinstance(d, Iface)}
        if set(a) != set(b):
            return "set of files changed"
        for p in a:
            if a[p] == b[p]:
                continue
            # the aliases of the types and const qualifiers are part of the spelling of object types
            ta, tb = ([w for w in re.findall(r"\w+|[^\w\s]", re.sub(r"typedef\s+Object\s+\w+\s*;", "", q)) if w not in ("const", "\\")]
                      for q in (a[p], b[p]))
            if len(ta) != len(tb):
                return f"{p}: the number of tokens changed ({len(ta)}/{len(tb)})"
            for i, (x, y) in enumerate(zip(ta, tb)):
                if x != y and not (x in ifs and y == "Object"):
                    return f"{p}: token {x!r} became {y!r} near {' '.join(ta[max(0, i - 6):i + 6])!r}"
        return None
    ctx.merge(parallel(jobs, job))
    cleanup(F)
    ctx.samples = [{"source": s[0], "text": s[1][:600]} for s in sources()]
    return ctx.finish("Equality (up to the comments the property allows) of the generated text under whitespace, comment, documentation, marking and "
                      "untyped-object variants, by abstract interpretation of the compiler on each variant.", variants=sum(len(j[5] or [1]) for j in jobs))
