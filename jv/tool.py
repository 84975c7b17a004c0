"""javac on generated Java; class files."""
import glob
import os
import re

from ll.tool import run, CompileError
from . import classfile

API = os.path.join(os.path.dirname(os.path.abspath(__file__)), "api")


def javac(s, srcs, name="jout", flags=()):
    """(return code, messages, output directory)"""
    out = os.path.join(s.d, name)
    os.makedirs(out, exist_ok=True)
    api = glob.glob(os.path.join(API, "**", "*.java"), recursive=True)
    rc, msg = run(["javac", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-proc:none", "-encoding", "UTF-8", *flags, "-d", out, *api, *srcs])
    return rc, msg, out


def classes(out):
    res = {}
    for p in glob.glob(os.path.join(out, "**", "*.class"), recursive=True):
        with open(p, "rb") as f:
            c = classfile.parse(f.read())
        res[c.name] = c
    return res


def prepare(d):
    """compiles the runtime surface and the driver of check_many once"""
    src = glob.glob(os.path.join(API, "**", "*.java"), recursive=True)
    rc, msg = run(["javac", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-proc:none", "-d", d, *src, os.path.join(os.path.dirname(API), "Check.java")])
    if rc:
        raise CompileError(msg)
    return d


def check_many(api, dirs):
    """[(accepted without diagnostics, messages)] for several source directories, in one JVM"""
    if not dirs:
        return []
    rc, msg = run(["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", api, "Check", api, *dirs], timeout=600)
    if rc:
        raise CompileError(msg)
    parts = re.split(r"^@@ (ok|bad)$", msg, flags=re.M)[1:]
    res = [(parts[i] == "ok", parts[i + 1].strip()) for i in range(0, len(parts), 2)]
    assert len(res) == len(dirs), msg[-2000:]
    return res
