"""Obligations, known findings, evidence and the parallel driver shared by all checks."""
import json
import os
import pickle
import sys
import time
import traceback

from absint.interp import run_big_stack
from absint.values import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prop, level="other"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.bad = {}          # key -> detail
        self.und = {}          # key -> why
        self.nok = 0
        self.rules = {}        # rule -> count of obligations
        self.stats = {}
        self.samples = []
        self.visited = set()
        self.assume = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def budget(self, total):
        """seconds left of `total`"""
        return total - (time.time() - self.t0)

    def ok(self, rule, n=1):
        self.nok += n
        self.rules[rule] = self.rules.get(rule, 0) + n

    def violation(self, rule, key, detail=""):
        k = f"{rule}: {key}"
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if k not in self.bad:
            self.bad[k] = str(detail)

    def undecided(self, rule, key, why=""):
        k = f"{rule}: {key}"
        self.rules[rule] = self.rules.get(rule, 0) + 1
        self.und.setdefault(k, str(why))

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def merge(self, results):
        """results: list of (status, rule, key, detail)"""
        for r in results:
            if r[0] == "ok":
                self.ok(r[1], r[2] if len(r) > 2 and isinstance(r[2], int) else 1)
            elif r[0] == "bad":
                self.violation(r[1], r[2], r[3])
            elif r[0] == "und":
                self.undecided(r[1], r[2], r[3])
            elif r[0] == "stat":
                self.stat(r[1], r[2])
            elif r[0] == "sample":
                if len(self.samples) < 12:
                    self.samples.append(r[1])
            elif r[0] == "visited":
                self.visited |= r[1]

    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        try:
            with open(p) as f:
                d = json.load(f)
        except FileNotFoundError:
            return {}
        return {e["key"]: e.get("what", "") for e in d.get("findings", []) if e["property"] == self.prop}

    def finish(self, explanation, **cov):
        known = self.known()
        new = {k: v for k, v in self.bad.items() if k not in known}
        old = {k: v for k, v in self.bad.items() if k in known}
        for k in old:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        total = sum(self.rules.values())
        coverage = {
            "explanation": explanation,
            "obligations": total,
            "discharged": self.nok,
            "undecided": len(self.und),
            "violating": len(new),
            "known_findings": len(old),
            "rules": dict(sorted(self.rules.items())),
            "compiler_functions_interpreted": len(self.visited),
            "stats": self.stats,
            "samples": self.samples,
            "undecided_items": {k: str(v)[:600] for k, v in list(self.und.items())[:25]},
        }
        coverage.update(cov)
        if self.visited:
            coverage["functions"] = sorted(self.visited)[:400]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": coverage, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.prop}: {total} obligations, {self.nok} discharged, {len(self.und)} undecided, "
              f"{len(old)} known, {len(new)} violations, {ev['wall_s']} s")
        for k, v in list(self.und.items())[:8]:
            print("  undecided:", k, "--", str(v)[:300])
        if new:
            rp = os.path.join(evd, self.prop + ".violations.txt")
            with open(rp, "w") as f:
                for k, v in new.items():
                    f.write(f"== {k}\n{v}\n\n")
            for k, v in list(new.items())[:10]:
                print("  broken:", k)
                for ln in str(v).splitlines()[:12]:
                    print("      ", ln[:400])
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        return 0


def parallel(jobs, fn, nproc=8, deadline=None):
    """Runs fn(job) -> list of result tuples in forked workers; yields merged list.
    A worker exception for one job becomes an 'und' result."""
    jobs = list(jobs)
    if not jobs:
        return []
    nproc = max(1, min(nproc, len(jobs)))
    sys.stdout.flush()
    sys.stderr.flush()
    rfd, wfd = os.pipe()
    # a shared queue of job indices
    for i in range(len(jobs)):
        pass
    pids = []
    outs = []
    import tempfile
    import fcntl
    qf = tempfile.NamedTemporaryFile(prefix="vq", delete=False)
    qf.write(b"0")
    qf.flush()
    for w in range(nproc):
        of = tempfile.NamedTemporaryFile(prefix="vo", delete=False)
        outs.append(of.name)
        of.close()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                def body():
                    res = []
                    fd = os.open(qf.name, os.O_RDWR)
                    while True:
                        fcntl.flock(fd, fcntl.LOCK_EX)
                        os.lseek(fd, 0, 0)
                        i = int(os.read(fd, 32) or b"0")
                        os.lseek(fd, 0, 0)
                        os.write(fd, b"%d" % (i + 1))
                        fcntl.flock(fd, fcntl.LOCK_UN)
                        if i >= len(jobs):
                            break
                        if deadline is not None and time.time() > deadline:
                            res.append(("stat", "jobs skipped at the time limit", 1))
                            continue
                        try:
                            res.append((i, fn(jobs[i])))
                        except Unsupported as e:
                            res.append((i, [("und", "analysis", repr(jobs[i])[:200], "unsupported: " + str(e)[:500])]))
                        except Exception:
                            res.append((i, [("und", "analysis", repr(jobs[i])[:200], traceback.format_exc()[-1500:])]))
                    with open(outs[w], "wb") as f:
                        pickle.dump(res, f)
                run_big_stack(body)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    os.close(rfd)
    os.close(wfd)
    for p in pids:
        os.waitpid(p, 0)
    allr = []
    extra = []
    for o in outs:
        try:
            with open(o, "rb") as f:
                for it in pickle.load(f):
                    if it[0] == "stat":
                        extra.append(it)
                    else:
                        allr.append(it)
        except (EOFError, pickle.UnpicklingError):
            extra.append(("und", "analysis", "worker died", "a worker process ended without results"))
        os.unlink(o)
    os.unlink(qf.name)
    allr.sort(key=lambda x: x[0])
    done = {i for i, _ in allr}
    out = []
    for _, r in allr:
        out += r
    return out + extra
