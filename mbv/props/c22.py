"""generated test datasets"""
import os
from hypothesis import strategies as st
from ..engine import fail, require

ID, LEVEL = "C22", "exploration"
CASES = {"quick": 8000, "thorough": 90000}
RULE = ("case = a file of a size, a uniform dataset (total > 0, count > 0), an inventory (with or without bytes left over), or a tree of "
        "sub-directories with given or left-open shares; the files made are counted and measured with the operating system; "
        "non-trivial: at least 2 files, or a file of at least 1 line; distinct by case hash")
CASE_CPU_LIMIT = 20

_sz = st.one_of(st.integers(0, 130), st.integers(1, 3000), st.sampled_from([99, 100, 101, 199, 200, 201, 1000, 1900, 2000, 2001, 6400]))


@st.composite
def inventory(draw, maxn=6):
    d = draw(st.dictionaries(_sz, st.integers(1, maxn), min_size=1, max_size=4))
    return sorted([k, v] for k, v in d.items())


@st.composite
def directory(draw, depth):
    """an explicit directory directive: [inventories, uniforms, subdirs, extra bytes, extra files, reps]"""
    inv = [draw(inventory(3))] if draw(st.booleans()) else []
    reps = draw(st.sampled_from([1, 1, 1, 2, 3]))
    uni = [[draw(st.integers(1, 300)), draw(st.integers(1, 7))] for _ in range(draw(st.integers(0, 2)))]
    sub = [draw(directory(depth - 1)) for _ in range(draw(st.integers(0, 2)))] if depth else []
    extra = draw(st.sampled_from([0, 0, 0, 1, 37, 250]))
    ef = draw(st.integers(1, 5)) if extra else 0
    if extra == 0 and not (sum(s * n for i in inv for s, n in i) + sum(u[0] for u in uni)):
        uni = uni + [[draw(st.integers(1, 50)), 1]]
    return {"inv": inv, "uni": uni, "sub": sub, "extra": extra, "ef": ef, "reps": reps}


@st.composite
def strategy(draw):
    kind = draw(st.sampled_from(["file", "uniform", "uniform", "inventory", "inventory", "tree", "tree", "open"]))
    if kind == "file":
        return {"kind": kind, "sizes": draw(st.lists(st.one_of(_sz, st.integers(0, 60000), st.integers(0, 400000)), min_size=1, max_size=4))}
    if kind == "uniform":
        how = draw(st.sampled_from(["default", "plan", "iter"]))
        n = draw(st.integers(1, 40))
        tot = draw(st.one_of(st.integers(1, 60), st.integers(1, 4000), st.integers(0, 30).map(lambda k: k * n + 1),
                             st.integers(1, 30).map(lambda k: max(1, k * n - 1)), st.integers(0, 30).map(lambda k: k * n + (n + 1) // 2)))
        if how == "iter":
            tot, n = draw(st.sampled_from([(tot, n), (tot * 1000003, n * 17)]))
        return {"kind": kind, "how": how, "total": tot, "count": n}
    if kind == "inventory":
        big = draw(st.integers(0, 5)) == 0
        inv = [[draw(st.integers(0, 3)), draw(st.integers(30, 130))]] if big else draw(inventory())
        return {"kind": kind, "inv": inv, "extra": draw(st.sampled_from([0, 0, 1, 100])),
                "count": draw(st.sampled_from([None, 1, 2, 7, 50])), "reps": draw(st.sampled_from([1, 1, 2]))}
    if kind == "open":
        nd = draw(st.integers(1, 5))
        fixed = [[draw(st.integers(1, 100)), draw(st.integers(1, 4))] for _ in range(draw(st.integers(0, 2)))]
        n = draw(st.integers(nd, 30))
        return {"kind": kind, "nd": nd, "fixed": fixed, "count": n, "total": draw(st.integers(max(n, nd), 1500)),
                "asint": draw(st.booleans()) and not fixed}
    return {"kind": kind, "root": draw(directory(2))}


def even(total, n):
    q, r = divmod(total, n)
    return sorted([q + 1] * r + [q] * (n - r))


def scan(d):
    files, subs = [], []
    for e in sorted(os.listdir(d)):
        p = os.path.join(d, e)
        if os.path.isdir(p):
            subs.append(scan(p))
        else:
            files.append(os.stat(p).st_size)
    return [sorted(files), sorted(subs)]


def check_lines(path, size):
    b = open(path, "rb").read()
    require(len(b) == size, "a file of %d bytes was asked for, %d were made", size, len(b))
    require(all(c == 10 or 32 <= c < 127 for c in b), "a file of %d bytes is not made of ASCII lines", size)
    for ln in b.split(b"\n"):
        require(len(ln) <= 100, "a file of %d bytes has a line of %d bytes", size, len(ln))
    for ln in b.splitlines(True):
        require(len(ln) <= 100, "a file of %d bytes has a line of %d bytes with its end", size, len(ln))


def flat(t):
    return t[0] + [x for s in t[1] for x in flat(s)]


def plan_of(d):
    out = {"files": [], "dirs": []}
    for inv in d["inv"]:
        out["files"].append({"type": "inventory", "sizes": {s: n for s, n in inv}})
    for t, n in d["uni"]:
        out["files"].append({"type": "uniform", "totalsize": t, "totalfiles": n})
    for s in d["sub"]:
        p = plan_of(s)
        if s["reps"] > 1:
            p["reps"] = s["reps"]
        out["dirs"].append(p)
    want = model_of(d)
    f = flat(want)
    out["totalsize"] = sum(f)
    out["totalfiles"] = len(f)
    return out


def model_of(d):
    files = [s for inv in d["inv"] for s, n in inv for _ in range(n)]
    for t, n in d["uni"]:
        files += even(t, n)
    if d["extra"]:
        files += even(d["extra"], d["ef"])
    subs = []
    for s in d["sub"]:
        subs += [model_of(s)] * s["reps"]
    return [sorted(files), sorted(subs)]


FIXED = [{"kind": "crowd", "n": 130, "size": 1}]


def known(case, msg):
    """more files of one size in one directory than names to choose from"""
    if case["kind"] == "crowd" and case["n"] > 100 and "did not end" in msg:
        return "mkdata-names"


def crowd(case, ctx):
    """many files of one size with the default file count, in a child that may not end"""
    import signal, resource
    from multibag.testing import mkdata
    dest = ctx.dirpath("ds")
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (4, 4))
            mkdata.mkdataset(dest, case["n"] * case["size"], plan={"files": [{"type": "inventory", "sizes": {case["size"]: case["n"]}}]})
        except BaseException:
            os._exit(1)
        os._exit(0)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        fail("making %d files of %d bytes did not end", case["n"], case["size"])
    require(status == 0, "making %d files of %d bytes failed", case["n"], case["size"])
    got = scan(dest)
    require(got == [[case["size"]] * case["n"], []], "%d files of %d bytes asked for, made %r", case["n"], case["size"], got)


def check(case, ctx):
    from multibag.testing import mkdata
    import random
    random.seed(12345)
    kind = case["kind"]
    if kind == "crowd":
        return crowd(case, ctx)
    dest = ctx.dirpath("ds")
    ctx.tag(kind)
    if kind == "file":
        p = ctx.dirpath("f")
        for s in case["sizes"]:
            r = mkdata.create_file(p, s)
            require(r == s, "create_file(%d) says it made %r bytes", s, r)
            check_lines(p, s)
            ctx.nontrivial(s >= 100)
        return

    if kind == "uniform":
        t, n = case["total"], case["count"]
        ctx.nontrivial(n > 1)
        it = mkdata.UniformSizeIterator(t, n)
        got = list(it.iterate())
        require(sorted(got) == even(t, n), "%d bytes evenly in %d files gives sizes %r", t, n, got[:50])
        require(it.totalsize == t and it.totalfiles == n, "the size iterator says %r bytes in %r files for %d in %d",
                it.totalsize, it.totalfiles, t, n)
        if case["how"] == "iter":
            return
        if t == 0:
            return
        if case["how"] == "plan":
            mkdata.DatasetMaker(dest, {"totalsize": t, "totalfiles": n, "files": [{"totalsize": t, "totalfiles": n}]}).fill()
        elif n == 10:
            mkdata.mkdataset(dest, t)
        else:
            mkdata.mkdataset(dest, t, n)
        got = scan(dest)
        require(got == [even(t, n), []], "a dataset of %d bytes in %d files has sizes %r, sub-directories %r", t, n, got[0], got[1])
    elif kind == "inventory":
        inv = {s: n for s, n in case["inv"]}
        reps = case["reps"]
        want = sorted(s for s, n in case["inv"] for _ in range(n)) * reps
        nb = sum(want) + case["extra"]
        ctx.nontrivial(len(want) > 1)
        if nb == 0:
            return
        if case["extra"] and (case["count"] or 10) < len(want):
            case = dict(case, count=len(want) + (case["count"] or 10))
        # (see the known finding about names)
        most = max(n for s, n in case["inv"]) * reps
        if most > 4 * (case["count"] or 10):
            case = dict(case, count=most)
        kw = {} if case["count"] is None else {"filecount": case["count"]}
        d = {"type": "inventory", "sizes": inv}
        if reps > 1:
            d["reps"] = reps
        mkdata.mkdataset(dest, nb, plan={"files": [d]}, **kw)
        got = scan(dest)
        nx = max(1, (case["count"] or 10) - len(want)) if case["extra"] else 0
        exp = sorted(want + (even(case["extra"], nx) if nx else []))
        require(got == [exp, []], "inventory %r (x%d, %d bytes more) made sizes %r, expected %r", case["inv"], reps, case["extra"], got, exp)
        if len(want) > 100:
            ctx.tag("many same-sized files")
    elif kind == "open":
        t, n, nd = case["total"], case["count"], case["nd"]
        ft, fn = sum(f[0] for f in case["fixed"]), sum(f[1] for f in case["fixed"])
        dirs = nd if case["asint"] else [{"totalsize": a, "totalfiles": b} for a, b in case["fixed"]] + [{} for _ in range(nd)]
        mkdata.mkdataset(dest, t + ft, n + fn, plan={"dirs": dirs})
        got = scan(dest)
        ctx.nontrivial(nd > 1)
        require(got[0] == [], "files %r were put outside of the sub-directories", got[0])
        require(len(got[1]) == nd + len(case["fixed"]), "%d sub-directories were made, not %d", len(got[1]), nd + len(case["fixed"]))
        for s in got[1]:
            require(s[1] == [] and s[0] and s[0][-1] - s[0][0] <= 1, "a sub-directory has uneven sizes %r", s)
        tot = sorted(sum(s[0]) for s in got[1])
        cnt = sorted(len(s[0]) for s in got[1])
        require(tot == sorted(even(t, nd) + [f[0] for f in case["fixed"]]), "sub-directories hold %r bytes of %d", tot, t + ft)
        require(cnt == sorted(even(n, nd) + [f[1] for f in case["fixed"]]), "sub-directories hold %r files of %d", cnt, n + fn)
    else:
        want = model_of(case["root"])
        p = plan_of(case["root"])
        ctx.nontrivial(len(flat(want)) > 1)
        if case["root"]["sub"]:
            ctx.tag("tree with sub-directories")
        mkdata.mkdataset(dest, p.pop("totalsize"), p.pop("totalfiles"), plan=p)
        got = scan(dest)
        require(got == want, "the plan made %r, expected %r", got, want)
    for dp, dn, fns in os.walk(dest):
        for f in fns[:10]:
            p = os.path.join(dp, f)
            check_lines(p, os.stat(p).st_size)
