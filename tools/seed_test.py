#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies: tests pass with the patch, the demonstration passes
without and fails with it, and which checks report the bug.

  seed_test.py [--no-tests] [--checks C01,C02 | --all-checks | --own] [--jobs N] ID...
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def sh(cmd, cwd=None, env=None, timeout=1200):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-2000:]

def scratch(patch):
    tmp = tempfile.mkdtemp(prefix="seedt_")
    rc, o = sh("git -C /repo archive HEAD | tar -x -C %s/" % tmp)
    if patch:
        rc, o = sh("git apply --unsafe-paths --directory=%s %s" % (tmp, patch), cwd="/")
        if rc: raise SystemExit("patch does not apply: " + o)
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", tmp).replace("/opt/vp/build.sh", tmp + "/vp_build.sh")
        open(tmp + "/vp_" + f, "w").write(s)
    return tmp

def one(bug, a):
    d = os.path.join(VERIF, "seeded", bug)
    meta = json.load(open(d + "/meta.json"))
    tmp = scratch(d + "/patch.diff")
    res = {"id": bug, "property": meta["property"]}
    try:
        rc, o = sh("bash %s/vp_build.sh" % tmp)
        res["build"] = rc
        if rc:
            res["log"] = o[-1500:]; return res
        if not a.no_tests:
            rc, o = sh("bash %s/vp_test.sh %s/out.json" % (tmp, tmp))
            r = json.load(open(tmp + "/out.json"))
            bad = STABLE - set(r["passed"])
            res["tests"] = "ok" if not bad else "FAIL " + " ".join(sorted(bad))
        demo = tempfile.mkdtemp(prefix="seedd_")
        for f in os.listdir(d):
            if f not in ("patch.diff", "meta.json"): shutil.copy(d + "/" + f, demo)
        rc0, o0 = sh("bash %s/demo.sh" % demo, cwd="/repo")
        rc1, o1 = sh("bash %s/demo.sh" % demo, cwd=tmp)
        shutil.rmtree(demo)
        res["demo"] = "clean %d, patched %d%s" % (rc0, rc1, "" if rc0 == 0 and rc1 not in (0, 3) else "  <-- BAD")
        res["demo_out"] = (o0 + " | " + o1).strip().replace("\n", "; ")[-300:]
        if a.all_checks: cs = ["C%02d" % i for i in range(1, 23)]
        elif a.checks: cs = a.checks.split(",")
        elif a.own: cs = [meta["property"]]
        else: cs = []
        env = dict(os.environ, VERIF_REPO=tmp, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=tmp)
        caught = []
        for c in cs:
            rc, o = sh("%s/run check %s quick" % (VERIF, c), env=env)
            if rc == 1 and "VIOLATION property=" + c in o: caught.append(c)
            elif rc: caught.append("%s(rc=%d)" % (c, rc)); res["log_" + c] = o[-500:]
            if c == meta["property"] and rc == 0: res["MISSED"] = True
        if cs: res["caught_by"] = caught
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

p = argparse.ArgumentParser()
p.add_argument("--no-tests", action="store_true"); p.add_argument("--checks"); p.add_argument("--all-checks", action="store_true")
p.add_argument("--own", action="store_true"); p.add_argument("--jobs", type=int, default=2); p.add_argument("ids", nargs="*")
a = p.parse_args()
ids = a.ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
with ThreadPoolExecutor(a.jobs) as ex:
    for r in ex.map(lambda b: one(b, a), ids):
        print(json.dumps(r), flush=True)
