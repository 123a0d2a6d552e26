"""
The generic machinery: a property is a module mbv.props.cNN with

    ID, LEVEL, RULE                     strings (RULE: how cases are made, what is non-trivial)
    CASES = {"quick": n, "thorough": n} number of generated cases over all shards
    strategy()                          a hypothesis strategy of JSON-serialisable cases
    check(case, ctx)                    raises Violation, else returns

optional: FIXED -- a list of cases which are always run (by shard 0) before generation;
          MAXWALL = {"quick": s, "thorough": s}; known(case, message) -> str or None.

The generated case is plain data, so the shrunk failing case can be written to a replay file
and re-run without hypothesis.
"""
import os, sys, json, time, hashlib, importlib, traceback, signal, shutil, tempfile, subprocess
import errno, random, argparse, logging, resource

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MBV_REPO", "/repo")
NSHARDS = 8
CASE_CPU_LIMIT = 60
SHRINK_SECONDS = 40
SHIMMED = ("C21",)      # run with the fault injection shim preloaded
NOLATIN1 = ()           # not run in another locale


class Violation(Exception):
    """the property is broken"""


class HarnessError(Exception):
    """the check itself could not run (scratch space, environment)"""


class CaseTimeout(BaseException):
    pass


def setup_path():
    sys.path.insert(0, REPO)
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
    import warnings
    warnings.simplefilter("ignore")
    import multibag
    if not os.path.realpath(multibag.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("multibag is not imported from %s: %s" % (REPO, multibag.__file__))
    # every error path in the libraries logs; keep the output readable
    logging.disable(logging.CRITICAL)


LATIN1 = "en_US.ISO-8859-1"


def latin1_env(work, env=None):
    """an environment whose locale is not a UTF-8 one (built from the system's locale sources), or None"""
    try:
        subprocess.check_call(["localedef", "-f", "ISO-8859-1", "-i", "en_US", os.path.join(work, LATIN1)],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except (OSError, subprocess.CalledProcessError):
        return None
    env = dict(env or os.environ)
    env.update(LOCPATH=work, LC_ALL=LATIN1, LANG=LATIN1, PYTHONUTF8="0", MBV_LATIN1="1")
    return env


def latin1_case(case):
    """can the case's names be file names in that locale?"""
    try:
        json.dumps(case, ensure_ascii=False).encode("iso-8859-1")
        return True
    except UnicodeError:
        return False


def scratch_base():
    for d in ("/dev/shm", "/tmp", "/var/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


class Ctx(object):
    """what a check may use and report"""

    def __init__(self, root):
        self.root = root
        self.n = 0
        self.tags = {}
        self._nontrivial = False
        self.notes = {}
        self.kf = []          # known findings seen on this case
        self._case_tags = set()
        self.deadline = None

    def late(self):
        """is the time for searching over? (a case of many steps may then stop)"""
        return self.deadline is not None and time.time() > self.deadline

    def fresh(self):
        self.n += 1
        self._nontrivial = False
        self._case_tags = set()
        d = os.path.join(self.root, "w")
        rmtree(d)
        os.mkdir(d)
        self.dir = d
        return d

    def dirpath(self, *p):
        return os.path.join(self.dir, *p)

    def nontrivial(self, yes=True):
        self._nontrivial = self._nontrivial or bool(yes)

    def tag(self, *names):
        """count this case under each of the given class names (at most once per case)"""
        for n in names:
            self._case_tags.add(n)

    def finish(self):
        for n in self._case_tags:
            self.tags[n] = self.tags.get(n, 0) + 1

    def add(self, name, k=1):
        self.notes[name] = self.notes.get(name, 0) + k


def rmtree(d):
    if os.path.lexists(d):
        shutil.rmtree(d, ignore_errors=True)
        if os.path.lexists(d):
            subprocess.call(["chmod", "-R", "u+rwx", d])
            shutil.rmtree(d)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


_ENV_ERRNO = (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT, errno.EAGAIN)


def run_case(mod, case, ctx):
    """run one case; returns None if the property held on it, else the failure text.
    Raises HarnessError when the environment (not the code) is at fault."""
    ctx.fresh()
    soft = getattr(mod, "CASE_CPU_LIMIT", CASE_CPU_LIMIT)

    def onprof(sig, frm):
        raise CaseTimeout()
    old = signal.signal(signal.SIGPROF, onprof)
    signal.setitimer(signal.ITIMER_PROF, soft)
    cwd = os.getcwd()
    try:
        try:
            mod.check(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.chdir(cwd)
        return None
    except Violation as ex:
        return str(ex)
    except HarnessError:
        raise
    except CaseTimeout:
        return "TIMEOUT: the case did not finish within %d s of CPU time" % soft
    except MemoryError:
        raise HarnessError("out of memory")
    except Exception as ex:
        if isinstance(ex, OSError) and ex.errno in _ENV_ERRNO and not getattr(mod, "FAULTS", False):
            raise HarnessError("environment: %r" % ex)
        tb = traceback.extract_tb(ex.__traceback__)
        repo = [f for f in tb if f.filename.startswith(REPO + os.sep)]
        if repo:
            last = repo[-1]
            return "unexpected %s: %s (raised under %s:%s %s)" % (
                type(ex).__name__, ex, os.path.relpath(last.filename, REPO), last.lineno, last.name)
        last = tb[-1]
        return "result could not be interpreted: %s: %s (at %s:%s)" % (
            type(ex).__name__, ex, os.path.basename(last.filename), last.lineno)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        ctx.finish()


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode("utf-8", "surrogatepass")).hexdigest()


def load(pid):
    return importlib.import_module("mbv.props." + pid.lower())


class Stop(Exception):
    pass


def shard_main(pid, tier, seed, shard, nshards, outfile, base):
    setup_path()
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck
    mod = load(pid)
    total = mod.CASES[tier]
    per = (total + nshards - 1) // nshards
    maxwall = getattr(mod, "MAXWALL", {"quick": 200, "thorough": 780})[tier]
    root = tempfile.mkdtemp(prefix="s", dir=base)
    ctx = Ctx(root)
    t0 = time.time()
    st = {"evaluations": 0, "keys": set(), "samples": [], "fail": None, "fail_t": None,
          "harness": None, "cut": False, "known": {}}
    known = load_known(pid)
    latin1 = sys.getfilesystemencoding().lower().replace("-", "") == "iso88591"

    ctx.deadline = t0 + maxwall
    saved = [t0]

    def save(path):
        out = {"evaluations": st["evaluations"], "keys": sorted(st["keys"]), "samples": st["samples"],
               "tags": ctx.tags, "notes": ctx.notes, "cut": st["cut"], "harness": st["harness"],
               "known": st["known"], "latin1": st["evaluations"] if latin1 else 0,
               "fail": st["fail"] and {"case": st["fail"][0], "message": st["fail"][1], "latin1": latin1}}
        with open(path + ".tmp", "w") as f:
            json.dump(out, f)
        os.rename(path + ".tmp", path)

    def one(case):
        """evaluate; returns failure text or None"""
        msg = run_case(mod, case, ctx)
        st["evaluations"] += 1
        if ctx._nontrivial:
            st["keys"].add(case_key(case))
            if len(st["samples"]) < 2 or (len(st["samples"]) < 4 and st["evaluations"] % 37 == 0):
                st["samples"].append(case)
        if time.time() - saved[0] > 20:
            # what there is so far, in case this process has to be stopped
            saved[0] = time.time()
            save(outfile + ".part")
        if msg is not None and known and hasattr(mod, "known"):
            k = mod.known(case, msg)
            if k is not None and k in known:
                st["known"][k] = st["known"].get(k, 0) + 1
                return None
        return msg

    def record(case, msg):
        size = len(json.dumps(case))
        if st["fail"] is None or size <= st["fail"][2]:
            st["fail"] = (case, msg, size)
        if st["fail_t"] is None:
            st["fail_t"] = time.time()
            ctx.deadline = None
            with open(outfile + ".fail", "w") as f:
                f.write("1")

    try:
        if shard == 0:
            for case in getattr(mod, "FIXED", []):
                msg = one(case)
                if msg:
                    record(case, msg)
                    break

        if st["fail"] is None:
            @hypothesis.seed((seed * 1000003 + shard * 7919) & 0x7fffffff)
            @settings(max_examples=per, database=None, deadline=None, report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink), print_blob=False,
                      suppress_health_check=list(HealthCheck))
            @given(mod.strategy())
            def test(case):
                case = json.loads(json.dumps(case))
                if latin1 and not latin1_case(case):
                    hypothesis.reject()
                now = time.time()
                if st["fail_t"] is None and now - t0 > maxwall:
                    st["cut"] = True
                    return
                if st["fail_t"] is not None and (now - st["fail_t"] > SHRINK_SECONDS or
                                                 st["fail"][1].startswith("TIMEOUT")):
                    return
                msg = one(case)
                if msg is not None:
                    record(case, msg)
                    raise Violation(msg)
            try:
                test()
            except HarnessError:
                raise
            except BaseException as ex:
                if st["fail"] is None:
                    if isinstance(ex, KeyboardInterrupt):
                        raise
                    st["harness"] = "hypothesis: " + "".join(
                        traceback.format_exception(type(ex), ex, ex.__traceback__))[-3000:]
    except HarnessError as ex:
        st["harness"] = str(ex)
    finally:
        rmtree(root)

    save(outfile)


def load_known(pid):
    """KNOWN findings of this property: {key: text}.  Lines of known_findings.txt:
       known: property=<id> key=<key> <what fails>
       fixed: property=<id> <commit> <what failed>           (suppresses nothing)"""
    out = {}
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn, encoding="utf-8"):
            if line.startswith("known: property=%s key=" % pid):
                rest = line.split("key=", 1)[1].strip()
                key, _, text = rest.partition(" ")
                out[key] = text
    return out


def clip(x, n=1500):
    s = json.dumps(x, ensure_ascii=True)
    return x if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def write_evidence(pid, mod, tier, seed, wall, res, violations):
    cov = {
        "evaluations": res["evaluations"],
        "distinct_nontrivial": len(res["keys"]),
        "rule": mod.RULE,
        "samples": [clip(s) for s in res["samples"][:5]],
        "classes": res["tags"],
        "counters": res["notes"],
        "shards": res["shards"],
        "time_cap_hit": res["cut"],
        "known_findings_seen": res["known"],
        "evaluations_in_a_latin1_locale": res["latin1"],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
          "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    fn = os.path.join(HERE, "evidence", pid + ".json")
    with open(fn + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.rename(fn + ".tmp", fn)


def run_property(pid, tier, seed):
    t0 = time.time()
    mod = None
    work = tempfile.mkdtemp(prefix="mbv-run-")
    scratch = tempfile.mkdtemp(prefix="mbv-run-", dir=scratch_base())
    procs = []
    nsh = NSHARDS
    env = None
    try:
        if pid in SHIMMED:
            from mbv import faults
            env = faults.shimmed_env(work)
        # one shard runs in a locale that is not a UTF-8 one
        other = latin1_env(work, env) if pid not in NOLATIN1 else None
        for i in range(nsh):
            outf = os.path.join(work, "s%d.json" % i)
            logf = open(os.path.join(work, "s%d.log" % i), "w")
            procs.append((subprocess.Popen(
                [sys.executable, os.path.join(HERE, "run.py"), pid, "--tier", tier, "--seed", str(seed),
                 "--shard", str(i), "--nshards", str(nsh), "--out", outf, "--scratch", scratch],
                stdout=logf, stderr=subprocess.STDOUT, cwd=HERE, env=other if other and i == nsh - 1 else env, start_new_session=True), outf, logf))
        # wait; when one shard has found a failure the others need not go on
        hard = {"quick": 480, "thorough": 870}[tier]
        stopped = set()
        failing_since = None
        while any(p.poll() is None for p, _, _ in procs):
            time.sleep(0.05)
            if failing_since is None and any(os.path.exists(o + ".fail") for _, o, _ in procs):
                failing_since = time.time()
            if failing_since is not None:
                for p, o, _ in procs:
                    if p.poll() is None and not os.path.exists(o + ".fail"):
                        kill(p)
                if all(p.poll() is not None or os.path.exists(o + ".fail") for p, o, _ in procs) and \
                   time.time() - failing_since > SHRINK_SECONDS + CASE_CPU_LIMIT + 30:
                    for p, o, _ in procs:
                        kill(p)
            if time.time() - t0 > hard:
                for p, o, _ in procs:
                    if p.poll() is None:
                        stopped.add(o)
                        kill(p)
        res = {"evaluations": 0, "keys": set(), "samples": [], "tags": {}, "notes": {}, "cut": False,
               "known": {}, "shards": nsh, "latin1": 0}
        fails, harness, lost = [], [], []
        for i, (p, o, logf) in enumerate(procs):
            logf.close()
            if not os.path.exists(o) and o in stopped and os.path.exists(o + ".part"):
                # in the middle of a slow case when the time was over
                os.rename(o + ".part", o)
                res["cut"] = True
            if not os.path.exists(o):
                lost.append((i, p.returncode, open(os.path.join(work, "s%d.log" % i)).read()[-2000:]))
                continue
            d = json.load(open(o))
            res["evaluations"] += d["evaluations"]
            res["keys"].update(d["keys"])
            res["samples"] += d["samples"][:1] if i else d["samples"]
            res["cut"] = res["cut"] or d["cut"]
            res["latin1"] += d["latin1"]
            for k in ("tags", "notes", "known"):
                for a, b in d[k].items():
                    res[k][a] = res[k].get(a, 0) + b
            if d["fail"]:
                fails.append(d["fail"])
            if d["harness"]:
                harness.append(d["harness"])
    finally:
        for p, _, _ in procs:
            kill(p)
        shutil.rmtree(work, ignore_errors=True)
        rmtree(scratch)
    setup_path()
    mod = load(pid)
    wall = time.time() - t0
    write_evidence(pid, mod, tier, seed, wall, res, len(fails))
    for k, text in sorted(load_known(pid).items()):
        if k in res["known"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    print("%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs%s" % (
        pid, tier, seed, res["evaluations"], len(res["keys"]), wall, " (time cap)" if res["cut"] else ""))
    if fails:
        best = min(fails, key=lambda f: len(json.dumps(f["case"])))
        rp = os.path.join(HERE, "replays")
        os.makedirs(rp, exist_ok=True)
        fn = os.path.join(rp, "%s-%s.json" % (pid, case_key(best["case"])[:10]))
        with open(fn, "w") as f:
            json.dump({"property": pid, "message": best["message"], "latin1": best["latin1"], "case": best["case"]}, f, indent=1)
        print("what failed: " + best["message"][:2000])
        print("VIOLATION property=%s replay=%s" % (pid, fn))
        return 1
    if harness or (lost and not fails):
        for h in harness:
            print("harness error: " + h, file=sys.stderr)
        for i, rc, log in lost:
            print("shard %d ended with %s: %s" % (i, rc, log), file=sys.stderr)
        return 2
    return 0


def kill(p):
    if p.poll() is None:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()


def replay(pid, fn):
    if pid in SHIMMED and "MBV_SHIM" not in os.environ:
        from mbv import faults
        work = tempfile.mkdtemp(prefix="mbv-run-")
        try:
            return subprocess.call([sys.executable, os.path.join(HERE, "run.py"), pid, "--replay", fn], env=faults.shimmed_env(work))
        finally:
            shutil.rmtree(work, ignore_errors=True)
    d = json.load(open(fn))
    if d.get("latin1") and "MBV_LATIN1" not in os.environ:
        work = tempfile.mkdtemp(prefix="mbv-run-")
        try:
            env = latin1_env(work)
            if env:
                return subprocess.call([sys.executable, os.path.join(HERE, "run.py"), pid, "--replay", fn], env=env)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    setup_path()
    mod = load(pid)
    root = tempfile.mkdtemp(prefix="mbv-replay-", dir=scratch_base())
    try:
        msg = run_case(mod, d["case"], Ctx(root))
    finally:
        rmtree(root)
    if msg is None:
        print("%s: the case in %s holds" % (pid, fn))
        return 0
    print("what failed: " + msg)
    print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(fn)))
    return 1


def setup():
    setup_path()
    import hypothesis, bagit, fs
    print("hypothesis", hypothesis.__version__, "bagit", bagit.__file__, "fs", fs.__file__)
    from mbv import faults
    work = tempfile.mkdtemp(prefix="mbv-run-")
    try:
        print("shim:", os.path.basename(faults.build(work)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


def sweep_stale():
    """remove scratch of killed runs (our own prefix only)"""
    for base in ("/dev/shm", "/tmp"):
        try:
            for d in os.listdir(base):
                full = os.path.join(base, d)
                if d.startswith(("mbv-c", "mbv-run-", "mbv-pyc-")) and \
                   time.time() - os.stat(full).st_mtime > 7200:
                    shutil.rmtree(full, ignore_errors=True)
        except OSError:
            pass


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shard", type=int)
    ap.add_argument("--nshards", type=int, default=NSHARDS)
    ap.add_argument("--out")
    ap.add_argument("--scratch")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args(argv)
    if a.setup:
        return setup()
    if a.replay:
        return replay(a.pid, a.replay)
    if a.shard is not None:
        shard_main(a.pid, a.tier, a.seed, a.shard, a.nshards, a.out, a.scratch)
        return 0
    sweep_stale()
    return run_property(a.pid, a.tier, a.seed)
