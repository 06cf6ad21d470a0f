"""Plants the bugs described in tools/bugs*.py one by one in a scratch copy of /repo, confirms each (builds, stable tests pass, the
demonstration passes without and fails with it) and writes seeded/<id>/.   usage: mkbugs.py [--force] [id ...]"""
import importlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PRE = '''import sys
import numpy as np
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape, (a.shape, b.shape)
    assert np.all(np.isfinite(a)) and np.max(np.abs(a - b)) <= tol * (1 + np.max(np.abs(b))), (a, b)


'''
SH = '#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def isolate():
    """work on a private copy: bind a scratch copy over /repo, and scratch over the test reports, in a mount namespace of our own"""
    if os.environ.get("MKBUGS_ISOLATED"):
        return
    scratch = "/tmp/mkbugs.%d" % os.getpid()
    os.makedirs(scratch + "/reports")
    sh("cp -a /repo %s/repo" % scratch)
    env = dict(os.environ, MKBUGS_ISOLATED=scratch)
    cmd = "mount --bind %s/repo /repo && mount --bind %s/reports /opt/vp/reports && exec %s %s" % (scratch, scratch, sys.executable, " ".join(["-B"] + sys.argv))
    r = subprocess.run(["unshare", "-m", "bash", "-c", cmd], env=env)
    shutil.rmtree(scratch)
    sys.exit(r.returncode)


def main():
    isolate()
    bugs = {}
    for f in sorted(os.listdir(HERE)):
        if f.startswith("bugs") and f.endswith(".py"):
            for b in importlib.import_module(f[:-3]).BUGS:
                assert b["id"] not in bugs, b["id"]
                bugs[b["id"]] = b
    force = "--force" in sys.argv
    want = [a for a in sys.argv[1:] if not a.startswith("-")] or list(bugs)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for i in want:
        b = bugs[i]
        out = os.path.join(ROOT, "seeded", i)
        if os.path.exists(os.path.join(out, "patch.diff")) and not force:
            continue
        assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
        tmp = os.environ["MKBUGS_ISOLATED"] + "/bug"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + "/demo.py", "w").write(PRE + b["demo"].lstrip("\n"))
        open(tmp + "/demo.sh", "w").write(SH)
        os.chmod(tmp + "/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
        r0 = sh("timeout 280 bash %s/demo.sh" % tmp, cwd="/repo")
        if r0.returncode != 0:
            print("%-28s DEMO FAILS ON CLEAN TREE\n%s" % (i, r0.stderr[-1500:]), flush=True)
            continue
        try:
            for f, old, new in b["edits"]:
                p = "/repo/bayesian_sde_solver/" + f
                s = open(p).read()
                assert s.count(old) >= 1, ("not found", i, f, old)
                assert s.count(old) == 1 or b.get("all"), ("ambiguous", i, f, old, s.count(old))
                open(p, "w").write(s.replace(old, new))
            open(tmp + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            bl = sh("bash /opt/vp/build.sh")
            if bl.returncode:
                print("%-28s BUILD FAILS %s" % (i, bl.stderr[-800:]), flush=True)
                continue
            r1 = sh("timeout 280 bash %s/demo.sh" % tmp, cwd="/repo")
            if r1.returncode == 0:
                print("%-28s DEMO DOES NOT FAIL WITH THE BUG" % i, flush=True)
                continue
            sh("bash /opt/vp/test.sh %s/t.json" % tmp)
            t = json.load(open(tmp + "/t.json"))
            passed = set(t.get("passed", []))
            miss = [x for x in stable if x not in passed]
            if miss:
                print("%-28s CAUGHT BY TESTS %s" % (i, miss[:4]), flush=True)
                continue
        finally:
            sh("git -C /repo checkout -- .")
        os.remove(tmp + "/t.json")
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print("%-28s ok   demo: %s" % (i, r1.stderr.strip().splitlines()[-1][:110] if r1.stderr.strip() else r1.returncode), flush=True)


main()
