#!/usr/bin/env python3
"""Make, confirm and try planted bugs (development tool; no check uses it).

    plant.py screen DEFS.py [ID ...]   apply each change in a scratch copy, run the repository's
                                       tests and the demonstration with and without it
    plant.py write  DEFS.py [ID ...]   the same, and write those that qualify to seeded/<ID>
    plant.py catch  [ID ...]           run the property's quick check against each of seeded/<ID>
                                       (in scratch copies of /repo and /verif)
    plant.py catchall ID               run every check against it

DEFS.py defines PLANTS: a list of dicts with id, property, edits [(file, old, new)], needs,
what_it_breaks and demo (python source; helper.py from tools/ is laid beside it).
"""
import os, sys, json, shutil, subprocess, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '''#!/bin/bash
# run with the current directory at the root of the repository
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" TZ=UTC LC_ALL=C.UTF-8
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def copy_repo(base):
    dest = os.path.join(base, "repo")
    sh(["git", "clone", "-q", "/repo", dest], check=True)
    return dest

def run_tests(repo, base):
    """names of the stable tests that fail (those that fail three times)"""
    missing = STABLE
    for i in range(3):
        work = tempfile.mkdtemp(dir=base)
        os.mkdir(work + "/tmp")
        env = dict(os.environ, TMPDIR=work + "/tmp", PYTHONHASHSEED="0",
                   PYTHONDONTWRITEBYTECODE="1", TZ="UTC", LANG="C.UTF-8")
        env.pop("PYTHONPATH", None)
        drop = ["setpriv", "--bounding-set=-dac_override,-dac_read_search",
                "--inh-caps=-dac_override,-dac_read_search"]
        sh(drop + [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
            "-o", "junit_family=xunit2", "--junitxml=" + work + "/junit.xml", "tests"],
           cwd=repo, env=env)
        sh(["python3", "/opt/vp/results.py", work + "/out.json", "junit:" + work + "/junit.xml"])
        passed = set(json.load(open(work + "/out.json"))["passed"])
        missing = missing - passed
        if not missing:
            break
    return sorted(missing)

def lay_demo(d, plant):
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.sh", "w") as fd:
        fd.write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/demo.py", "w") as fd:
        fd.write(plant["demo"].lstrip("\n"))
    shutil.copy(HERE + "/demo_helper.py", d + "/helper.py")

def screen(plant, write=False):
    base = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    out = [plant["id"] + " (" + plant["property"] + ")"]
    good = True
    try:
        repo = copy_repo(base)
        lay_demo(base + "/demo", plant)
        clean = sh(["bash", base + "/demo/demo.sh"], cwd=repo)
        if clean.returncode != 0:
            good = False
            out.append("  demo fails on clean tree: " + clean.stdout[-1500:])
        for f, old, new in plant["edits"]:
            p = os.path.join(repo, "multibag", f)
            src = open(p, encoding="utf-8").read()
            if src.count(old) != 1:
                out.append("  edit matches %d times in %s: %r" % (src.count(old), f, old[:60]))
                return False, "\n".join(out)
            open(p, "w", encoding="utf-8").write(src.replace(old, new))
        bad = sh(["bash", base + "/demo/demo.sh"], cwd=repo)
        if bad.returncode == 0:
            good = False
            out.append("  demo passes with the change")
        else:
            out.append("  demo: " + (bad.stdout.strip().splitlines() or ["?"])[-1][:150])
        failing = run_tests(repo, base)
        if failing:
            good = False
            out.append("  tests catch it: " + ", ".join(failing)[:300])
        patch = sh(["git", "diff"], cwd=repo).stdout
        if good and write:
            d = os.path.join(SEEDED, plant["id"])
            shutil.rmtree(d, ignore_errors=True)
            lay_demo(d, plant)
            open(d + "/patch.diff", "w").write(patch)
            json.dump({"property": plant["property"], "needs": plant["needs"],
                       "what_it_breaks": plant["what_it_breaks"]},
                      open(d + "/meta.json", "w"), indent=2)
        out.append("  OK" if good else "  REJECTED")
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return good, "\n".join(out)

def catch(pid, props=None):
    d = os.path.join(SEEDED, pid)
    prop = json.load(open(d + "/meta.json"))["property"]
    base = tempfile.mkdtemp(prefix="catch-", dir="/dev/shm")
    res = []
    try:
        repo = copy_repo(base)
        a = sh(["git", "apply", d + "/patch.diff"], cwd=repo)
        if a.returncode:
            return pid + ": patch does not apply: " + a.stdout
        shutil.copytree(VERIF, base + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        os.makedirs(base + "/verif/evidence", exist_ok=True)
        env = dict(os.environ, MBV_REPO=repo)
        env.setdefault("VERIF_SEED", "1")
        for p in props or [prop]:
            r = sh(["python3", "run.py", p], cwd=base + "/verif", env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("%s rc=%d %s" % (p, r.returncode, v[0] if v else r.stdout.strip()[-200:] if r.returncode not in (0,) else ""))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return "%-28s %s" % (pid, "; ".join(res))

def main(argv):
    cmd = argv[0]
    if cmd in ("screen", "write"):
        plants = runpy.run_path(argv[1])["PLANTS"]
        if argv[2:]:
            plants = [p for p in plants if p["id"] in argv[2:]]
        with ThreadPoolExecutor(6) as ex:
            for good, msg in ex.map(lambda p: screen(p, cmd == "write"), plants):
                print(msg, flush=True)
    elif cmd == "catch":
        ids = argv[1:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "2"))) as ex:
            for msg in ex.map(catch, ids):
                print(msg, flush=True)
    elif cmd == "catchall":
        props = [json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl")]
        print(catch(argv[1], props))

main(sys.argv[1:])
