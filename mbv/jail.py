"""Running a piece of a check in a forked child that has given up its privileges (where that is possible), so that code under
test that should, and does not, keep to its own directory can reach nothing but the scratch files of this check."""
import os, json, signal, traceback
from .engine import Violation, HarnessError, CaseTimeout

NOBODY = 65534


def drop():
    try:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    except OSError:
        pass


def own(top):
    """give a scratch tree to the unprivileged user, and let that user get there"""
    d = os.path.dirname(top)
    for _ in range(2):
        try:
            os.chmod(d, 0o711)
        except OSError:
            pass
        d = os.path.dirname(d)
    try:
        os.chown(top, NOBODY, NOBODY)
        for root, ds, fs in os.walk(top):
            for n in ds + fs:
                os.chown(os.path.join(root, n), NOBODY, NOBODY, follow_symlinks=False)
    except OSError:
        pass


def run(fn, case, ctx, mod, seconds=60):
    """fn(case, ctx) in the child; its outcome, tags and non-triviality are passed back"""
    from . import engine
    own(ctx.dir)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, seconds)
            drop()
            os.chdir(ctx.dir)
            out = {"msg": None, "harness": None}
            try:
                fn(case, ctx)
            except Violation as ex:
                out["msg"] = str(ex)
            except HarnessError as ex:
                out["harness"] = str(ex)
            except BaseException as ex:
                tb = traceback.extract_tb(ex.__traceback__)
                repo = [f for f in tb if f.filename.startswith(engine.REPO + os.sep)]
                at = (repo or tb)[-1]
                out["msg"] = "unexpected %s: %s (raised under %s:%s %s)" % (type(ex).__name__, ex, at.filename, at.lineno, at.name)
            out["tags"] = sorted(ctx._case_tags)
            out["nt"] = ctx._nontrivial
            out["notes"] = ctx.notes
            data = json.dumps(out).encode("utf-8")
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if not data:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGPROF:
            raise CaseTimeout()
        raise HarnessError("the child ended with status %d" % st)
    out = json.loads(data.decode("utf-8"))
    ctx.tag(*out["tags"])
    ctx.nontrivial(out["nt"])
    ctx.notes = out["notes"]
    if out["harness"]:
        raise HarnessError(out["harness"])
    if out["msg"]:
        raise Violation(out["msg"])
