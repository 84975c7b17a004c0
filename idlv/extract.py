"""Extracts the type-checked, monomorphised MIR of the compiler from /repo's current sources."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
WS = ("idlc,idlc_ast,idlc_ast_passes,idlc_codegen,idlc_codegen_c,idlc_codegen_cpp,idlc_codegen_java,"
      "idlc_codegen_rust,idlc_errors,idlc_mir,idlc_mir_passes")


class ExtractError(Exception):
    pass


def _env():
    e = {k: v for k, v in os.environ.items()
         if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER",
                      "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN")}
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_ICE"] = "0"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                          env=_env(), check=True).stdout.strip()


def build_driver():
    tgt = os.path.join(BUILD, "driver")
    exe = os.path.join(tgt, "debug", "mirdump")
    p = subprocess.run(["cargo", "+nightly", "build", "--offline", "--target-dir", tgt],
                       cwd=os.path.join(VERIF, "driver"), env=_env(), capture_output=True, text=True)
    if p.returncode or not os.path.exists(exe):
        raise ExtractError("the MIR driver does not build:\n" + p.stderr[-3000:])
    return exe


def extract(release=False):
    """Returns the directory with idlc.bin.json / idlc.lib.json of the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        name = "rel" if release else "dbg"
        out = os.path.join(BUILD, "mir-" + name + "-" + str(os.getpid()))
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(BUILD, "target-" + name)
        for d in ("build", ".fingerprint"):
            for f in glob.glob(os.path.join(tgt, "debug", d, "idlc*")):
                shutil.rmtree(f, ignore_errors=True)
        env = _env()
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        env["MIRDUMP_OUT"] = out
        env["MIRDUMP_WS"] = WS
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        if release:
            env["MIRDUMP_RELEASE"] = "1"
        p = subprocess.run(["cargo", "+nightly", "check", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                            "--offline", "--workspace", "--target-dir", tgt],
                           env=env, capture_output=True, text=True, cwd=VERIF)
        if p.returncode or not os.path.exists(os.path.join(out, "idlc.bin.json")):
            raise ExtractError("MIR extraction failed:\n" + p.stderr[-4000:])
        return out


def tree_hash():
    h = hashlib.sha256()
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in (".git", "target"))
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode())
            try:
                with open(p, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
    return h.hexdigest()
