"""Create a planted bug: seedgen.mk(id, prop, file, old, new, needs, breaks, demo_cpp).
Verifies in a scratch copy that it applies, builds, keeps the stable tests and that the demo tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
# cwd = the repository; exit 0 if the behaviour is right
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -w @FLAGS@ -I"$PWD/include" -I"$D" "$D/demo.cpp" -o "$T/demo" @LIBS@
cd "$T" && timeout 120 ./demo
'''


def mk(id, prop, file, pairs, needs, breaks, demo, extra=None, flags="", libs="", demo_sh=None):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files = {}
    for f, old, new in ([(file,) + p for p in pairs] if file else pairs):
        p = os.path.join("include/qlpeps", f)
        s = files.get(p) or open(os.path.join(REPO, p)).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        files[p] = s.replace(old, new)
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run(["git", "clone", "-q", REPO, w + "/r"], check=True)
        for p, s in files.items():
            open(os.path.join(w, "r", p), "w").write(s)
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(demo)
        for n, t in (extra or {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
            open(os.path.join(d, n), "w").write(t)
        open(d + "/demo.sh", "w").write(demo_sh or DEMO.replace("@FLAGS@", flags).replace("@LIBS@", libs))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", d + "/demo.sh"], cwd=w + "/r", capture_output=True, text=True)
        subprocess.run(["git", "-C", w + "/r", "checkout", "-q", "--", "."], check=True)
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=w + "/r", capture_output=True, text=True)
        ok = a.returncode != 0 and b.returncode == 0
        print(id, "demo patched rc", a.returncode, "clean rc", b.returncode, "OK" if ok else "BAD\n" + a.stderr[-800:] + b.stdout[-500:] + b.stderr[-1500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return ok


def tests_pass():
    """stable tests in /repo's working tree"""
    subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/_seed_out.json"], capture_output=True)
    r = json.load(open("/tmp/_seed_out.json"))
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    os.remove("/tmp/_seed_out.json")
    return all(t in r["passed"] for t in st)


def trial(ids, props=None):
    """apply each patch in /repo, run tests and its property's check, undo"""
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        subprocess.run(["git", "-C", REPO, "apply", d + "/patch.diff"], check=True)
        try:
            t = tests_pass()
            res = []
            for p in props or [meta["property"]]:
                r = subprocess.run([sys.executable, "check.py", p, "quick"], cwd=V, capture_output=True, text=True)
                res.append(f"{p}:rc{r.returncode}" + (" " + r.stdout.strip().splitlines()[0][:160] if r.returncode else ""))
            print(i, "tests", "pass" if t else "FAIL", res, flush=True)
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
    trial(ids)
