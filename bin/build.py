#!/usr/bin/env python3
"""Builds checker executables from /verif/mc and the solver's working tree.

Objects are cached by content (command + hash of every file the compiler read),
so a rebuild follows any change of the sources and nothing else."""
import hashlib, json, os, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
MC = os.path.join(VERIF, "mc")
sys.path.insert(0, MC)

_h = {}
def fhash(p):
    if p not in _h:
        try:
            with open(p, "rb") as f:
                _h[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _h[p] = "missing"
    return _h[p]

def fresh(out, cmd):
    try:
        k = json.load(open(out + ".key"))
    except Exception:
        return False
    return k["cmd"] == cmd and os.path.exists(out) and all(fhash(d) == h for d, h in k["deps"].items())

def compile_one(src, obj, flags):
    cmd = flags + ["-c", src, "-o", obj]
    if fresh(obj, cmd):
        return None
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", dep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "compile failed: " + " ".join(cmd) + "\n" + r.stdout[-6000:]
    t = open(dep).read().replace("\\\n", " ")
    deps = [os.path.abspath(d) for d in t.split(":", 1)[1].split() if d.startswith((VERIF, REPO)) or not d.startswith("/")]
    json.dump({"cmd": cmd, "deps": {d: fhash(d) for d in deps}}, open(obj + ".key", "w"))
    return None

def build(exe):
    import targets
    t = targets.targets(REPO, VERIF)[exe]
    os.makedirs(BUILD, exist_ok=True)
    objs, work = [], []
    for unit in t["units"]:
        src, flags = unit["src"], unit["cmd"]
        key = hashlib.sha256((src + "\0" + "\0".join(flags)).encode()).hexdigest()[:16]
        obj = os.path.join(BUILD, os.path.basename(src).replace(".cpp", "") + "-" + key + ".o")
        objs.append(obj)
        work.append((unit.get("cost", 1), src, obj, flags))
    work.sort(key=lambda w: -w[0])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        res = list(ex.map(lambda w: compile_one(*w[1:]), work))
    bad = [r for r in res if r]
    if bad:
        sys.stderr.write("\n".join(bad) + "\n")
        return None
    # units that define per-unit globals in headers become closed objects: everything
    # but their entry point is made local, so no copy of a header function is shared
    final, groups = [], {}
    for unit, obj in zip(t["units"], objs):
        if "iso" in unit:
            g = groups.setdefault(unit["iso"], ([], []))
            g[0].append(obj)
            g[1][:] = unit.get("objcopy", [])
        else:
            final.append(obj)
    def isolate(item):
        keep, (members, extra) = item
        key = hashlib.sha256((keep + repr(extra) + "".join(m + fhash(m) for m in members)).encode()).hexdigest()[:16]
        out = os.path.join(BUILD, keep + "-" + key + ".iso.o")
        if os.path.exists(out):
            return out, None
        tmp = out + ".tmp"
        for cmd in (["ld", "-r", "--force-group-allocation", "-z", "muldefs", "-o", tmp] + members,
                    ["objcopy"] + ([] if keep.startswith("@") else ["--keep-global-symbol=" + keep]) + extra + [tmp, tmp]):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return out, "isolation failed: " + " ".join(cmd) + "\n" + r.stdout[-4000:]
        os.rename(tmp, out)
        return out, None
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for out, err in ex.map(isolate, groups.items()):
            if err:
                sys.stderr.write(err + "\n")
                return None
            final.append(out)
    objs = final
    out = os.path.join(BUILD, exe)
    cmd = t["link"] + ["-o", out] + objs + t["libs"]
    lk = hashlib.sha256(("\0".join(cmd) + "".join(fhash(o) for o in objs)).encode()).hexdigest()
    try:
        if open(out + ".lk").read() == lk and os.path.exists(out):
            return out
    except OSError:
        pass
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write("link failed: " + " ".join(cmd) + "\n" + r.stdout[-6000:] + "\n")
        return None
    open(out + ".lk", "w").write(lk)
    return out

if __name__ == "__main__":
    import targets
    names = sys.argv[1:] or list(targets.targets(REPO, VERIF))
    ok = True
    for n in names:
        p = build(n)
        print(n, p)
        ok = ok and p is not None
    sys.exit(0 if ok else 2)
