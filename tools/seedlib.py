"""helper for writing seeded bugs: seed(id, prop, [(file, old, new)...], needs, breaks, demo_cpp)"""
import json, os, subprocess, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
WT = "/tmp/seedwt"

DEMO_SH = """#!/bin/bash
# exit 0: the code behaves; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -g %(flags)s -I"$R/include" -o "$T/demo" "$D/demo.cpp" %(link)s -lstdc++fs -lpthread -ldl || exit 98
cd "$T" && timeout 120 ./demo
"""

def seed(sid, prop, edits, needs, breaks, demo, flags="", link='"$R/_build/src/.libs/libfuxedo.a"', demo_sh=None, extra=()):
    d = os.path.join(ROOT, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(WT):
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", WT, "HEAD"])
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", os.environ.get("SEEDREV", "HEAD")], text=True).strip()])
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
    for f, a, b in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(a) == 1, (sid, f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.check_output(["git", "-C", WT, "diff"], text=True)
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if demo:
        open(os.path.join(d, "demo.cpp"), "w").write(demo)
    for n, c in extra:
        open(os.path.join(d, n), "w").write(c)
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(demo_sh or DEMO_SH % {"flags": flags, "link": link})
    os.chmod(p, 0o755)
    print(sid, "written")
