#!/usr/bin/env python3
"""Keeps /verif/seeded in step with tools/seeds/*.py.

Each entry: S(id, property, needs, breaks, demo, edits) with edits = [(file, old, new)].
'demo' is the argument line handed to a private copy of the machinery (kit/) that is
placed beside demo.sh, so a demonstration replays one fixed input of the checker.

  seed.py write [ID..]    write patch.diff, demo.sh, meta.json, kit/
  seed.py try [ID..]      apply to /repo, build, run tests, demo and check, undo
"""
import json, os, shutil, subprocess, sys, glob, difflib, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDS = {}
def S(id, prop, needs, breaks, demo, edits, also=()):
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, property=prop, needs=needs, breaks=breaks, demo=demo, edits=edits)

for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"S": S})

def diff(s):
    out, new = "", {}
    for f, a, b in s["edits"]:
        t = new.get(f)
        if t is None:
            t = subprocess.check_output(["git", "-C", REPO, "show", "HEAD:" + f], text=True)
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        new[f] = t.replace(a, b)
    for f, t in new.items():
        o = subprocess.check_output(["git", "-C", REPO, "show", "HEAD:" + f], text=True)
        d = list(difflib.unified_diff(o.split("\n"), t.split("\n"), "a/" + f, "b/" + f, lineterm=""))
        # handle missing newline at the end of file
        res = []
        ol, tl = o.split("\n"), t.split("\n")
        if o.endswith("\n"):
            ol = ol[:-1]; tl = tl[:-1] if t.endswith("\n") else tl
        d = list(difflib.unified_diff(ol, tl, "a/" + f, "b/" + f, lineterm=""))
        for ln in d:
            res.append(ln)
            if not o.endswith("\n") and ln[0] in " +-" and not ln.startswith(("+++", "---")):
                pass
        body = "\n".join(res) + "\n"
        if not o.endswith("\n") and len(ol) - 1 <= max_line(d, ol):
            body = body.rstrip("\n") + "\n\\ No newline at end of file\n"
        out += body
    return out
def max_line(d, ol):
    import re
    m = 0
    for ln in d:
        g = re.match(r"@@ -(\d+)(?:,(\d+))?", ln)
        if g:
            m = max(m, int(g.group(1)) + int(g.group(2) or 1) - 1)
    return m - 0 if m < len(ol) else len(ol)

DEMO = """#!/bin/sh
# Replays one input of the checker copied into kit/ against the solver in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/kit" "$work/kit"
MC_REPO=$(pwd) MC_BUILD="$work/build" python3 "$work/kit/bin/check" %s
"""

def write(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff(s))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % s["demo"])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    k = os.path.join(d, "kit")
    if os.path.isdir(k):
        shutil.rmtree(k)
    for sub in ("mc", "bin"):
        shutil.copytree(os.path.join(V, sub), os.path.join(k, sub), ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy(os.path.join(V, "known_findings.txt"), k)

def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def attempt(s, fast):
    patch = os.path.join(V, "seeded", s["id"], "patch.diff")
    demo = os.path.join(V, "seeded", s["id"], "demo.sh")
    assert run("git -C /repo status --porcelain -uno").stdout == ""
    res = [s["id"]]
    if not fast:
        r = run("sh " + demo, cwd=REPO)
        res.append("demo clean rc=%d" % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:])
    r = run("git -C /repo apply --check " + patch)
    if r.returncode:
        return res + ["DOES NOT APPLY " + r.stdout]
    run("git -C /repo apply " + patch)
    try:
        if not fast:
            r = run("bash /opt/vp/build.sh")
            res.append("build rc=%d" % r.returncode)
            r = run("bash /opt/vp/test.sh /tmp/seed_t.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            t = json.load(open("/tmp/seed_t.json"))
            res.append("tests rc=%d %s" % (r.returncode, str(t)[:80] if r.returncode else ""))
            r = run("sh " + demo, cwd=REPO)
            res.append("demo patched rc=%d" % r.returncode)
        t0 = time.time()
        r = run("timeout 900 python3 %s/bin/check %s" % (V, s["property"]), env=dict(os.environ, VERIF_TIER="quick"))
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        res.append("check rc=%d %.0fs %s" % (r.returncode, time.time() - t0, v[:1]))
        if r.returncode not in (0, 1):
            res.append(r.stdout[-600:])
    finally:
        run("git -C /repo checkout -- .")
    return res

if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    fast = "--fast" in ids
    ids = [i for i in ids if i != "--fast"]
    sel = [i for i in SEEDS if not ids or i in ids or SEEDS[i]["property"] in ids]
    for i in sel:
        write(SEEDS[i])
        if cmd == "try":
            print(attempt(SEEDS[i], fast), flush=True)
