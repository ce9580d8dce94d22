"""Try planted bugs: apply each patch to a scratch copy of /repo and report
whether the test suite still passes, whether the demonstration tells the two
trees apart and whether the check of its property (or the ones given) fails.

usage: try_seed.py [--no-tests] [--par N] [--checks C01,C02|all] ID...
"""
import argparse
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def main():
    p = argparse.ArgumentParser()
    p.add_argument("ids", nargs="*")
    p.add_argument("--no-tests", action="store_true")
    p.add_argument("--par", type=int, default=4)
    p.add_argument("--checks")
    p.add_argument("--repo", default="/repo")
    a = p.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(HERE, "seeded")))

    def one(i):
        d = os.path.join(HERE, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="seed-%s-" % i)
        try:
            tree = os.path.join(tmp, "repo")
            shutil.copytree(a.repo, tree, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.pyc"))
            out = []
            rc, txt = sh(["bash", os.path.join(d, "demo.sh")], tree)
            out.append("demo-clean=%s" % ("ok" if rc == 0 else "BAD(%s) %s" % (rc, txt[-300:])))
            rc, txt = sh(["git", "apply", "--unsafe-paths", os.path.join(d, "patch.diff")], tree)
            if rc:
                print(i, "PATCH DOES NOT APPLY", txt)
                return
            rc, txt = sh(["bash", os.path.join(d, "demo.sh")], tree)
            out.append("demo-bug=%s" % ("ok" if rc else "BAD(0)"))
            if not a.no_tests:
                rc, txt = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "-n", "2",
                              "--timeout=700", "cqcpy/tests"], tree,
                             {"PYTHONPATH": "/opt/vp/plugins", "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0"})
                last = [l for l in txt.strip().splitlines() if "passed" in l or "failed" in l][-1:]
                out.append("tests=%s" % ("ok" if rc == 0 else "BAD " + str(last)))
            checks = [meta["property"]]
            if a.checks == "all":
                checks = ["C%02d" % k for k in range(1, 28)]
            elif a.checks:
                checks = a.checks.split(",")
            for c in checks:
                rc, txt = sh(["bash", os.path.join(HERE, "check.sh"), c, "--tier", "quick"], HERE,
                             {"VERIF_REPO": tree, "VERIF_EVIDENCE": os.path.join(tmp, "ev")})
                v = re.findall(r"^VIOLATION property=(\S+)", txt, re.M)
                out.append("%s=%s" % (c, "caught" if rc == 1 and v else ("MISSED" if rc == 0 else "ERROR rc=%d %s" % (rc, txt[-400:]))))
            print(i, *out, flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    with concurrent.futures.ThreadPoolExecutor(a.par) as ex:
        for f in [ex.submit(one, i) for i in ids]:
            f.result()


if __name__ == "__main__":
    sys.exit(main())
