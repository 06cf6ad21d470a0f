"""Runs the checks against planted bugs, each in a private copy of /repo bound over /repo in its own mount namespace.
usage: trybugs.py [--all] [--tier quick] [--seed 1] [id ...]     (--all: every check, not only the property's own)
       trybugs.py --diff FILE [C01 ...]                          (any patch, e.g. a behaviour-preserving edit)"""
import argparse
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(patch, props, tier, seed):
    scratch = "/tmp/trybug.%d" % os.getpid()
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    subprocess.run("cp -a /repo %s/repo && cp -a %s %s/verif && cd %s/repo && git apply %s" % (scratch, ROOT, scratch, scratch, patch), shell=True, check=True)
    out = {}
    for p in props:
        cmd = "mount --bind %s/repo /repo && cd %s/verif && exec /opt/venv/bin/python -B run.py %s --tier %s" % (scratch, scratch, p, tier)
        r = subprocess.run(["unshare", "-m", "bash", "-c", cmd], env=dict(os.environ, VERIF_SEED=str(seed)), capture_output=True, text=True)
        mon = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "INCONCLUSIVE", "{"))][:2]
        out[p] = (r.returncode, mon, r.stdout, r.stderr)
    shutil.rmtree(scratch)
    return out


def main():
    a = argparse.ArgumentParser()
    a.add_argument("ids", nargs="*")
    a.add_argument("--all", action="store_true")
    a.add_argument("--tier", default="quick")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--diff")
    a = a.parse_args()
    every = ["C%02d" % i for i in range(1, 29)]
    if a.diff:
        for p, (rc, mon, o, e) in run(os.path.abspath(a.diff), a.ids or every, a.tier, a.seed).items():
            print(p, rc, (" ".join(mon) or (o + e)[-600:])[:600] if rc else "", flush=True)
        return
    S = os.path.join(ROOT, "seeded")
    for i in a.ids or sorted(os.listdir(S)):
        d = os.path.join(S, i)
        if not os.path.exists(d + "/meta.json"):
            continue
        prop = json.load(open(d + "/meta.json"))["property"]
        res = run(d + "/patch.diff", every if a.all else [prop], a.tier, a.seed)
        for p, (rc, mon, o, e) in res.items():
            tag = {0: "MISSED", 1: "caught", 2: "INCONCLUSIVE"}.get(rc, "ERROR %s" % rc)
            print("%-34s %s %-8s %s" % (i, p, tag, " ".join(mon)[:260]), flush=True)


main()
