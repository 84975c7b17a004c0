"""Front ends of the target languages: generated text -> LLVM IR (or diagnostics)."""
import os
import shutil
import subprocess
import tempfile

from idlv.extract import REPO, _env
from . import parse

CINC = os.path.join(REPO, "tests", "c")
CPPINC = os.path.join(REPO, "tests", "cpp")


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vll")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def write(self, name, text):
        p = os.path.join(self.d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        return p


class CompileError(Exception):
    pass


def run(cmd, cwd=None, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=_env(), timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def c_ll(s, name, text):
    src = s.write(name + ".c", text)
    out = os.path.join(s.d, name + ".ll")
    rc, msg = run(["clang", "-std=gnu11", "-S", "-emit-llvm", "-O0", "-w", "-fno-stack-protector", "-I", s.d, "-I", CINC, "-o", out, src])
    if rc:
        raise CompileError(msg)
    with open(out) as f:
        return parse.parse(f.read())


def cpp_ll(s, name, text):
    src = s.write(name + ".cpp", text)
    out = os.path.join(s.d, name + ".ll")
    rc, msg = run(["clang++", "-S", "-emit-llvm", "-O0", "-w", "-fno-stack-protector", "-fno-exceptions", "-fno-rtti", "-I", s.d,
                   "-I", CINC, "-I", CPPINC, "-o", out, src])
    if rc:
        raise CompileError(msg)
    with open(out) as f:
        return parse.parse(f.read())


def rust_lib(mods, extra, attr=None):
    """crate root text; mods: {module: path of the generated file}; attr: lints upstream allows in generated modules"""
    obj = os.path.join(REPO, "tests", "src", "object", "mod.rs")
    top = "#![allow(warnings)]\n" if attr is None else "#![deny(warnings)]\n"
    al = "" if attr is None else "#[allow(warnings)]\n"
    body = extra if attr is None else f"#[allow(warnings)]\npub mod user {{\n{extra}\n}}\n"
    return (top + al + f'#[path = "{obj}"]\npub mod object;\n{attr or ""}\npub mod interfaces {{\n'
            + "".join(f'    pub mod r#{m} {{ include!("{p}"); }}\n' for m, p in sorted(mods.items())) + "}\n"
            + ('extern "C" { fn ext_drop(me: *mut u8); }\n' + body if attr is None else body.replace("{\n", '{\nextern "C" { fn ext_drop(me: *mut u8); }\n', 1)))


def rust_ll(s, name, mods, extra, opt="0"):
    src = s.write(name + ".rs", rust_lib(mods, extra))
    out = os.path.join(s.d, name + ".ll")
    rc, msg = run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "gen", "--cfg", 'feature="std"', "-C", "panic=abort", "-C", "opt-level=" + opt,
                   "-C", "debuginfo=0", "-C", "debug-assertions=off", "-C", "overflow-checks=off", "-C", "codegen-units=1",
                   "--emit=llvm-ir", "-o", out, src])
    if rc:
        raise CompileError(msg)
    with open(out) as f:
        return parse.parse(f.read())


def rust_check(s, name, mods, extra):
    """type- and borrow-checks like the crate of tests/ does; warnings are errors, but for the lints it allows"""
    src = s.write(name + ".rs", rust_lib(mods, extra, "#[allow(unused, nonstandard_style)]"))
    return run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "gen", "--cfg", 'feature="std"', "--check-cfg", 'cfg(feature, values("std"))',
                "--emit=metadata", "-o", os.path.join(s.d, name + ".rmeta"), src])
