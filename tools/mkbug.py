"""mkbug.py SPEC.py [--check]: plants a bug in a scratch copy of /repo, confirms it (demo, stable tests), runs the check and stores it.

SPEC.py defines ID, PROP, EDITS = [(file, old, new), ...], NEEDS, BREAKS, DEMO (python source; exits nonzero when broken).
"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec["ID"]
W = tempfile.mkdtemp(prefix="bug_")
R = W + "/repo"
run = lambda c, **k: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
try:
    assert run(["git", "clone", "-q", "/repo", R]).returncode == 0
    cpp = False
    for f, a, b in spec["EDITS"]:
        s = open(R + "/" + f).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(R + "/" + f, "w").write(s.replace(a, b))
        cpp |= f.endswith((".cpp", ".hpp"))
    diff = run(["git", "diff"], cwd=R).stdout
    lib = "/tmp/lib"
    if cpp:
        lib = W + "/lib"
        r = run([PY, "setup.py", "-q", "build_ext", "--force", "--parallel", "8", "--build-lib", lib, "--build-temp", W + "/t"], cwd=R,
                env=dict(env, CONDA_PREFIX="/usr", SETUPTOOLS_SCM_PRETEND_VERSION="1.2.5", CC="ccache gcc", CXX="ccache g++", CCACHE_DIR="/opt/ccache"))
        assert r.returncode == 0, r.stdout[-3000:]
    D = H + "/seeded/" + ID
    os.makedirs(D, exist_ok=True)
    open(D + "/patch.diff", "w").write(diff)
    open(D + "/demo.py", "w").write(spec["DEMO"].lstrip("\n"))
    open(D + "/demo.sh", "w").write('#!/bin/bash\nexport OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(D + "/demo.sh", 0o755)
    json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(D + "/meta.json", "w"), indent=1)
    bad = []
    r0 = run(["bash", D + "/demo.sh"], cwd="/repo", env=dict(env, PYTHONPATH="/tmp/lib:/repo/src"), timeout=300)
    if r0.returncode != 0:
        bad.append("demo fails on the unchanged tree: " + r0.stdout[-1500:])
    r1 = run(["bash", D + "/demo.sh"], cwd=R, env=dict(env, PYTHONPATH=lib + ":" + R + "/src"), timeout=300)
    if r1.returncode == 0:
        bad.append("demo passes with the patch: " + r1.stdout[-1500:])
    if "--notest" not in sys.argv:
        t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "-rA", "tests/test_hsmm.py"], cwd=R,
                env=dict(env, PYTHONPATH=lib + ":" + R + "/src"))
        ok = set(l.split(" ", 1)[1].replace("/", ".").replace(".py", "", 1).split(" ")[0] for l in t.stdout.splitlines() if l.startswith("PASSED"))
        ok = set(x.replace("::", ".", 1).strip() for x in ok)
        miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok]
        if miss:
            bad.append("stable tests fail: %r" % miss)
    print(ID, "demo:", r1.stdout.strip().splitlines()[-1:] , "BAD" if bad else "confirmed", *bad)
    if bad:
        shutil.rmtree(D)
        sys.exit(1)
    if "--nocheck" not in sys.argv:
        c = run(["python3", H + "/vp/run.py", spec["PROP"], "quick"], env=dict(env, VERIF_REPO=R, VERIF_PREBUILT=lib, VERIF_SEED="1", VERIF_EVIDENCE=W + "/ev"))
        print(ID, spec["PROP"], "CAUGHT" if c.returncode == 1 else "MISSED rc=%d" % c.returncode, "|", c.stdout.strip().splitlines()[-1:])
finally:
    shutil.rmtree(W, ignore_errors=True)
