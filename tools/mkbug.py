"""Development tool: makes seeded/<id> from a spec, confirms it (builds, tests pass, demo fails only with it).

spec: python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (bash), FILES={name: text}
usage: mkbug.py spec.py... ; works in /repo under a lock and undoes its changes
"""
import json
import os
import runpy
import subprocess
import sys

REPO = "/repo"
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


def make(spec):
    s = runpy.run_path(spec)
    d = os.path.join(SEED, s["ID"])
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["EDITS"]:
        p = os.path.join(REPO, f)
        t = open(p, newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if t.count(old) != 1:
            clean()
            return f"{s['ID']}: {f}: {t.count(old)} matches of {old[:60]!r}"
        open(p, "w", newline="").write(t.replace(old, new))
    diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n" + s["DEMO"].lstrip())
    for n, t in s.get("FILES", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    res = []
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        clean()
        return f"{s['ID']}: does not build\n" + (b.stdout + b.stderr)[-1500:]
    sh("bash /opt/vp/test.sh /tmp/mkbug.json")
    t = json.load(open("/tmp/mkbug.json"))
    r = sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
    res.append(f"tests {len(t['passed'])} passed {t['failed']}; demo with patch {r.returncode}: {(r.stdout + r.stderr)[-300:].strip()}")
    clean()
    return s["ID"] + ": " + " ".join(res)


for sp in sys.argv[1:]:
    print(make(sp), flush=True)
sh("bash /opt/vp/build.sh")
for sp in sys.argv[1:]:
    s = runpy.run_path(sp)
    r = sh(f"bash {SEED}/{s['ID']}/demo.sh", cwd=REPO, timeout=300)
    print(s["ID"], "demo on the clean tree:", r.returncode, "" if r.returncode == 0 else (r.stdout + r.stderr)[-600:])
