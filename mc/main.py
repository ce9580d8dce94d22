"""Entry point:  python -m mc.main C07 [--tier quick|thorough] [--replay FILE]"""
import argparse
import atexit
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_LIMIT_S = int(os.environ.get("VERIF_CASE_LIMIT_S", "480"))    # four times as much in the thorough tier


def _load(pid):
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import cqcpy
    where = os.path.realpath(os.path.dirname(cqcpy.__file__))
    if where != os.path.realpath(os.path.join(REPO, "cqcpy")):
        raise SystemExit("cqcpy imported from %s, expected %s" % (where, REPO))
    return importlib.import_module("mc.checks.%s" % pid.lower())


def _scratch():
    """temporary files of this run (the backend makes some) in one directory, removed at exit"""
    tmp = tempfile.mkdtemp(prefix="verif-")
    os.environ["TMPDIR"] = os.environ["PYSCF_TMPDIR"] = tempfile.tempdir = tmp
    pid = os.getpid()
    atexit.register(lambda: shutil.rmtree(tmp, ignore_errors=True) if os.getpid() == pid else None)


class _Hang(Exception):
    pass


def _alarm(sig, frm):
    raise _Hang("case did not finish within %d s" % CASE_LIMIT_S)


def _child(mod, case, conn):
    from mc import core
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        t = time.time()
        r = core.explore(mod, case)
        r["wall"] = time.time() - t
        conn.send(r)
    except BaseException as e:  # noqa
        conn.send({"case": case, "error": "%s: %s" % (type(e).__name__, e)})
    finally:
        conn.close()
        os._exit(0)


def run_cases(mod, cases, nproc, stop_after):
    """Every case in a fresh fork, at most nproc at a time."""
    mp = multiprocessing.get_context("fork")
    todo = list(reversed(cases))
    live = {}
    out = []
    nfail = 0
    while todo or live:
        while todo and len(live) < nproc and nfail < stop_after:
            c = todo.pop()
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(mod, c, b))
            p.start()
            b.close()
            live[a] = (p, c)
        if not live:
            break
        for a in multiprocessing.connection.wait(list(live), timeout=5):
            p, c = live.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = {"case": c, "error": "worker process died"}
            a.close()
            p.join()
            if r.get("fails"):
                nfail += 1
            out.append(r)
    return out, not todo


def case_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=5).hexdigest()


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % pid):
                rest = line.strip().split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out.append((key[4:] if key.startswith("key=") else key, text))
    return out


def main():
    import multiprocessing.connection  # noqa
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)))
    ap.add_argument("--profile", action="store_true")
    ap.add_argument("--only", help="development aid: cases of one kind, no evidence written")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    _scratch()
    mod = _load(a.pid)
    if a.replay:
        from mc import core
        rec = json.load(open(a.replay))
        r = core.explore(mod, rec["case"])
        for f in r["fails"]:
            print("FAIL", json.dumps(f, indent=1))
        print("reproduced" if r["fails"] else "not reproduced")
        return 1 if r["fails"] else 0
    global CASE_LIMIT_S
    if a.tier == "thorough":
        CASE_LIMIT_S *= 4
    cases = list(mod.cases(a.tier))
    keys = set(case_key(c) for c in cases)
    if len(keys) != len(cases):
        raise SystemExit("duplicate cases")
    if a.only:
        cases = [c for c in cases if c.get("kind") == a.only]
    if a.list:
        for c in cases:
            print(json.dumps(c))
        print(len(cases))
        return 0
    # biggest first when the module says so, otherwise the seed decides the order:
    # the set explored is the same for every seed
    random.Random(seed).shuffle(cases)
    if hasattr(mod, "cost"):
        cases.sort(key=lambda c: -mod.cost(c))
    results, complete = run_cases(mod, cases, max(1, a.jobs), 3)
    errors = [r for r in results if r.get("error")]
    ok = [r for r in results if not r.get("error")]
    hang = [r for r in errors if r["error"].startswith("_Hang")]
    for r in hang:
        errors.remove(r)
        ok.append({"case": r["case"], "states": 0, "transitions": 0, "traces": 0, "outcomes": set(),
                   "fails": [{"what": r["error"], "detail": {}}], "samples": [], "notes": {}, "wall": CASE_LIMIT_S})
    known = known_findings(a.pid)
    bad, seen_known = [], {}
    for r in ok:
        rest = []
        for f in r["fails"]:
            k = [t for key, t in known if key == f["detail"].get("key")]
            if k:
                seen_known[f["detail"]["key"]] = k[0]
            else:
                rest.append(f)
        if rest:
            bad.append((r["case"], rest))
    outcomes = set()
    notes = {}
    samples = []
    for r in sorted(ok, key=lambda r: json.dumps(r["case"], sort_keys=True)):
        outcomes |= r["outcomes"]
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        if len(samples) < 4 and r["samples"]:
            samples.append({"case": r["case"], "sample": r["samples"][0]})
    if not samples:
        samples = [{"case": r["case"], "states": r["states"]} for r in ok[:3]]
    wall = time.time() - t0
    if a.profile:
        for r in sorted(ok, key=lambda r: -r["wall"])[:15]:
            print("%8.2fs %s" % (r["wall"], json.dumps(r["case"])))
    ev = {"property": a.pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "model_checking",
          "coverage": {
              "states": sum(r["states"] for r in ok),
              "transitions": sum(r["transitions"] for r in ok),
              "traces_validated_against_impl": sum(r["traces"] for r in ok),
              "cases": len(ok), "cases_listed": len(cases),
              "distinct_outcomes": len(outcomes),
              "detail": notes,
              "bound": mod.BOUND[a.tier] if isinstance(mod.BOUND, dict) else mod.BOUND,
              "exhaustive": bool(complete and not errors and not bad),
              "samples": samples},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(wall, 2), "violations": len(bad)}
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    if a.only:
        evdir = os.path.join(evdir, "partial")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print("%s tier=%s cases=%d/%d states=%d calls=%d compared=%d outcomes=%d wall=%.1fs" % (
        a.pid, a.tier, c["cases"], c["cases_listed"], c["states"], c["transitions"],
        c["traces_validated_against_impl"], c["distinct_outcomes"], wall))
    for k, t in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (a.pid, t))
    if bad:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for case, fails in bad[:3]:
            path = os.path.join(rdir, "%s-%s.json" % (a.pid, case_key(case)))
            with open(path, "w") as f:
                json.dump({"property": a.pid, "case": case, "fails": fails,
                           "replay_cmd": "bash /verif/check.sh %s --replay %s" % (a.pid, path)}, f, indent=1)
            print("  case %s" % json.dumps(case))
            for fl in fails[:2]:
                print("    " + fl["what"] + "  " + json.dumps({k: v for k, v in fl["detail"].items() if k != "traceback"})[:400])
                if "traceback" in fl["detail"]:
                    print(fl["detail"]["traceback"][-700:])
            print("VIOLATION property=%s replay=%s" % (a.pid, path))
        return 1
    if errors:
        for r in errors[:5]:
            print("ERROR", r["error"], json.dumps(r["case"]))
        return 2
    if not complete:
        print("ERROR incomplete exploration")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
