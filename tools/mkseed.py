#!/usr/bin/env python3
"""Creates seeded/<id>/patch.diff from exact-text edits made in a scratch copy of /repo's HEAD."""
import json, os, shutil, subprocess, sys, tempfile
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")

def seed(sid, prop, edits, needs, breaks, files):
    """edits: [(path, old, new)]; files: {name: text} (demo.sh must be one of them)"""
    d = os.path.join(SEED, sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % tmp, shell=True)
        subprocess.check_call("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % tmp, shell=True)
        for path, old, new in edits:
            p = os.path.join(tmp, path)
            s = open(p, newline='').read()
            assert s.count(old) == 1, (sid, path, s.count(old), old)
            open(p, "w", newline='').write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp, "diff"])
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        shutil.rmtree(tmp)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for n, t in files.items():
        open(os.path.join(d, n), "w").write(t)
        if n.endswith(".sh"):
            os.chmod(os.path.join(d, n), 0o755)

# Compiles demo.c (or demo.cpp) beside it against the freshly built static library and runs it in a scratch directory.
DEMO_C = """#!/bin/bash
# Builds demo.%(ext)s against the library that was just built and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
%(cc)s -g -Wno-unused -DTRAX_STATIC_DEFINE -I"$PWD/include" -o "$dir/demo" "$here/demo.%(ext)s" %(libs)s || exit 2
cd "$dir" && timeout 60 ./demo
"""
def demo_c(libs='"$PWD/_build/libtraxstatic.a" -lm -lpthread'):
    return DEMO_C % dict(ext="c", cc="gcc", libs=libs)
def demo_cpp(libs='"$PWD/_build/libtraxstatic.a" -lm -lpthread'):
    return DEMO_C % dict(ext="cpp", cc="g++ -std=c++11", libs=libs)
