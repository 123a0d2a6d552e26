"""single faults of the file system, full disks, unreadable and damaged sources"""
import os, re, errno, shutil, unicodedata
from hypothesis import strategies as st
from .. import bags, gens, aggr, splitting, faults, headgen
from ..engine import fail, require, rmtree
from . import c08, c09

ID, LEVEL = "C21", "fault_enumeration"
FAULTS = True
CASES = {"quick": 960, "thorough": 9000}
CASE_CPU_LIMIT = 240
RULE = ("case = a small split (hard-linking, copying, from zip/tgz), restore (new, in place; members as directories or serialized), "
        "conversion or amendment x positions among all its file system calls (counted in a fault-free run; every position of the case "
        "for 'all') x errno x single or from-then-on failure; or a serialized member damaged by flips, cuts, zeroes; non-trivial: a fault "
        "was delivered (or the damaged file differs); distinct by case hash")
ASSUMPTIONS = ["a failed call is one that returns an error code; silently lost writes (power loss) are not simulated",
               "stat failures are not injected: an unreadable path can not be told from a missing one there"]
WMASK = (faults.WOPEN | faults.WRITE | faults.COPY | faults.LINK | faults.MKDIR | faults.REMOVE | faults.CLOSE)
RMASK = faults.ROPEN | faults.READ
ERRS = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EDQUOT": errno.EDQUOT, "EROFS": errno.EROFS,
        "EPERM": errno.EPERM, "EXDEV": errno.EXDEV, "EMLINK": errno.EMLINK, "EMFILE": errno.EMFILE}


@st.composite
def strategy(draw):
    kind = draw(st.sampled_from(["split", "split", "split", "restore", "restore", "convert", "amend", "damage", "damage"]))
    case = {"kind": kind}
    if kind == "split":
        case["c"] = draw(splitting.split_case(max_files=5, min_files=1, big=False, crowd=0))
        if case["c"]["form"] in ("splitter", "hand-ro") and draw(st.integers(0, 3)) > 0:
            case["c"]["form"] = "hand-path"
            case["c"]["parts"] = [i % 2 for i in range(len(case["c"]["bag"]["files"]))]
            case["c"]["nparts"] = 2
    elif kind in ("restore", "damage"):
        c = draw(aggr.aggregation(max_members=3, max_files=4))
        c["ser"] = [draw(st.sampled_from(["", "", ".zip", ".tar", ".tgz"])) for _ in c["members"]]
        c["way"] = draw(st.sampled_from(["new", "new", "inplace", "fetch"]))
        case["c"] = c
    elif kind == "convert":
        case["c"] = draw(gens.bag(max_files=4, big=False))
        case["again"] = draw(st.booleans())
    else:
        case["c"] = draw(c08.strategy())
        case["c"]["steps"] = case["c"]["steps"][:1]
    if kind == "damage":
        c = case["c"]
        if len(c["members"]) > 1 and draw(st.integers(0, 3)) > 0:
            case["which"] = draw(st.integers(0, len(c["members"]) - 2))
        else:
            case["which"] = len(c["members"]) - 1
        case["ext"] = draw(st.sampled_from(bags.SERS))
        dm = st.one_of(st.tuples(st.just("cut"), st.integers(0, 1000)), st.tuples(st.just("flip"), st.integers(0, 10**6), st.integers(1, 255)),
                       st.tuples(st.just("zero"), st.integers(0, 1000), st.integers(1, 600)),
                       st.tuples(st.just("drop"), st.integers(0, 1000), st.integers(1, 600)), st.tuples(st.just("empty")))
        case["damage"] = [list(draw(dm)) for _ in range(draw(st.integers(1, 4)))]
        return case
    case["mask"] = draw(st.sampled_from(["w", "a", "f", "w", "a", "f", "w", "r", "m", "d"]))
    case["pos"] = "all" if draw(st.integers(0, 9)) == 0 else \
        draw(st.lists(st.integers(0, 10**6), min_size=2, max_size=10))
    case["errs"] = draw(st.lists(st.tuples(st.sampled_from(sorted(ERRS) + ["ENOSPC"] * 4), st.integers(0, 2)).map(list), min_size=1, max_size=4))
    case["nolink"] = kind == "split" and draw(st.integers(0, 2)) > 0
    if kind == "split":
        case["c"]["log"] = draw(st.integers(0, 3)) > 0
    return case


def rebuild(root):
    # (the BagIt library's save() stays in the bag's directory when it fails)
    os.chdir(os.path.dirname(root))
    rmtree(root)
    os.mkdir(root)


class World(object):
    """everything needed to run the operation once: built anew under the same root for each run"""

    def __init__(self, sources, outputs, func):
        self.sources, self.outputs, self.func = sources, outputs, func
        self.snaps = [(s, bags.snapshot(s)) for s in sources]

    def result(self):
        out = {}
        for o in self.outputs:
            if not os.path.isdir(o):
                out[o] = None
                continue
            f, d = bags.tree(o)
            out[os.path.basename(o)] = (f, sorted(d))
        return out

    def intact(self, what):
        for s, snap in self.snaps:
            require(os.path.exists(s), "%s: the source %s is gone", what, os.path.basename(s))
            d = bags.snapdiff(snap, bags.snapshot(s))
            require(not d, "%s: the source %s was changed: %s", what, os.path.basename(s), d[:2])


def world(case, root):
    import multibag
    rebuild(root)
    kind, c = case["kind"], case["c"]
    if kind == "split":
        class C(object):
            dirpath = staticmethod(lambda *p: os.path.join(root, *p))
        os.mkdir(os.path.join(root, "src"))
        out = os.path.join(root, "out")
        os.mkdir(out)
        srcdir = bags.write_bag(os.path.join(root, "src"), c["bag"])
        form = {"hand-zip": ".zip", "hand-tgz": ".tgz"}.get(c["form"])
        srcs = [srcdir]

        def func():
            # (serialized sources are written by us when the plan is made, in a fault-free phase)
            plan = splitting.make_plan(c, C, srcdir) if not form else splitting_ser(c, srcdir, form)
            return [os.path.basename(b) for b in plan.apply_iter(out, **({"logger": splitting.LOG} if c.get("log") else {}))]
        if form:
            srcs.append(bags.serialize(srcdir, srcdir, form))
        return World(srcs, [out], func)
    if kind == "restore":
        a = os.path.join(root, "a")
        cache = os.path.join(root, "cache")
        os.mkdir(cache)
        paths = aggr.write(c, a)
        inplace = c["way"] == "inplace"
        for i, p in enumerate(paths):
            if c["ser"][i] and not (inplace and i == len(paths) - 1):
                paths[i] = bags.serialize(p, p, c["ser"][i])
                shutil.rmtree(p)
        dest = paths[-1] if inplace else os.path.join(root, "dest")
        if c["way"] == "fetch":
            mem = os.path.join(root, "mem")
            os.mkdir(mem)
            for i, p in enumerate(paths[:-1]):
                paths[i] = os.path.join(mem, os.path.basename(p))
                os.rename(p, paths[i])

            def fetcher(name, todir):
                for p in paths:
                    if os.path.basename(p) in [name] + [name + e for e in bags.SERS]:
                        t = os.path.join(todir, os.path.basename(p))
                        (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, t)
                        return t

            def func():
                multibag.restore_bag(paths[-1], dest, cache, fetcher)
        else:
            def func():
                multibag.restore_bag(paths[-1], None if inplace else dest)
        return World([p for p in paths if p != dest], [dest], func)
    if kind == "convert":
        bd = bags.write_bag(root, c)
        if case["again"]:
            multibag.make_single_multibag(bd, "1")
        return World([], [bd], lambda: multibag.make_single_multibag(bd, "2", "doi:1"))
    a = os.path.join(root, "a")
    os.mkdir(a)
    os.mkdir(os.path.join(root, "ser"))
    base = c["base"]
    for m in base["members"]:
        m["info"] = m["info"] or []
    cur = bags.write_bag(a, base["members"][0]) if c["plain"] else c08.write_base(c, a)
    s = c["steps"][0]
    newhead = bags.write_bag(a, s["head"])
    eb = [bags.write_bag(a, e) for e in s["extras"]]
    form = s["form"] if s["form"] in (".zip", ".tar.gz", "path") else "path"
    am = c08.amendee_arg(cur, form, os.path.join(root, "ser"))
    srcs = [os.path.join(a, x) for x in os.listdir(a) if os.path.join(a, x) != newhead] + ([am] if am != cur else [])
    return World(srcs, [newhead], lambda: multibag.amend_bag_with(am, newhead, s["version"], *eb))


def splitting_ser(c, srcdir, ext):
    """the hand-made plan for a source that was serialized before"""
    from multibag.split import SplitPlan
    plan = SplitPlan(srcdir + ext)
    groups = [[] for _ in range(c["nparts"])]
    for f, g in zip(c["bag"]["files"], c["parts"]):
        if g >= 0:
            groups[g].append(f[0])
    for g in groups:
        if g:
            plan._manifests.append({"contents": g, "totalsize": 0})
    plan.complete_plan()
    plan.name_output_bags(splitting.names_iter("o"))
    return plan


def describe(a, b):
    out = []
    for o in sorted(set(a) | set(b)):
        x, y = a.get(o), b.get(o)
        if x is None or y is None:
            out.append("%s is missing" % o)
            continue
        for p in sorted(set(x[0]) | set(y[0])):
            if x[0].get(p) != y[0].get(p):
                w, g = x[0].get(p), y[0].get(p)
                out.append("%s/%s %s" % (o, p, "is missing" if g is None else "should not be there" if w is None else
                                         "has %d bytes instead of %d" % (len(g), len(w)) if len(g) != len(w) else "has other bytes"))
        for p in sorted(set(x[1]) ^ set(y[1])):
            out.append("%s/%s: directory differs" % (o, p))
    return out


def check(case, ctx):
    ctx.tag(case["kind"])
    root = ctx.dirpath("w")
    if case["kind"] == "damage":
        return damage(case, ctx, root)
    mask = {"w": WMASK, "a": WMASK | RMASK | faults.META, "f": faults.WRITE | faults.COPY, "m": faults.META, "r": RMASK, "d": faults.DIR}[case["mask"]]
    # listing directories: only those of the bags that are read
    below = root
    if case["mask"] == "d":
        below = {"split": os.path.join(root, "src"), "restore": os.path.join(root, "mem" if case["c"].get("way") == "fetch" else "a")
                 }.get(case["kind"])
        if below is None or case["c"].get("way") == "inplace":
            return
    w = world(case, root)
    _, exc, n, _ = faults.run(w.func, below, mask, nolink=case.get("nolink"))
    if exc:
        # not a matter of faults: other checks decide it
        ctx.tag("refused without fault")
        return
    ref = w.result()
    kinds = faults.kinds(n)
    ctx.add("calls in fault-free runs", n)
    if n == 0:
        return
    # half of the positions are among those that write data
    data = [i + 1 for i, k in enumerate(kinds) if 1 << k in (faults.WRITE, faults.COPY)] or range(1, n + 1)
    pos = range(1, n + 1) if case["pos"] == "all" else \
        sorted(set(data[p // 2 % len(data)] if p % 2 else 1 + p // 2 % n for p in case["pos"]))
    if case["pos"] == "all":
        ctx.tag("every position")
    if case.get("nolink"):
        ctx.tag("hard links not possible")
    errs = case.get("errs") or [[case["err"], case["sticky"]]]
    for j, k in enumerate(pos):
        if ctx.late():
            ctx.tag("cut short by the time limit")
            break
        err, sticky = errs[j % len(errs)]
        w = world(case, root)
        _, exc, m, what = faults.run(w.func, below, mask, k, ERRS[err], sticky, case.get("nolink"))
        if what is None:
            # the operation made fewer calls this time; nothing failed
            ctx.add("faults not reached")
        else:
            ctx.nontrivial()
            ctx.add("faults: " + what[0])
            where = "with %s of %s failing%s (%s, call %d of %d)" % (what[0], os.path.relpath(what[1], os.path.realpath(root)),
                                                                   ["", " from then on", " as often as it is used"][sticky], err, k, n)
        if what is None:
            where = "without any fault (planned for call %d of %d)" % (k, n)
        w.intact(where)
        if exc is not None:
            ctx.add("raised")
            continue
        ctx.add("went on")
        got = w.result()
        if got != ref:
            fail("%s the operation returned normally, but: %s", where, describe(ref, got)[:4])


def nfc(p):
    return unicodedata.normalize("NFC", p)


def lacking(z):
    """the payload paths which the readable part of a serialized bag lists in its manifests, but which are neither there nor in its
    fetch list (read without this library)"""
    import tarfile, zipfile
    mans, fetch, names = [], b"", set()
    rel = lambda n: n.split("/", 1)[1] if "/" in n else ""

    def take(n, read):
        names.add(rel(n))
        if re.match(r"manifest-\w+\.txt\Z", rel(n)):
            mans.append(read())
        return read() if rel(n) == "fetch.txt" else b""
    try:
        if z.endswith(".zip"):
            with zipfile.ZipFile(z) as a:
                for n in a.namelist():
                    fetch += take(n, lambda: a.read(n))
        else:
            with tarfile.open(z) as a:
                for m in a:
                    if m.isfile():
                        fetch += take(m.name, lambda: a.extractfile(m).read())
    except Exception:
        pass
    out = set()
    for t in mans:
        for line in t.decode("utf-8", "replace").splitlines():
            parts = line.split(None, 1)
            if len(parts) == 2:
                out.add(parts[1].strip().lstrip("*"))
    for line in fetch.decode("utf-8", "replace").splitlines():
        parts = line.split(None, 2)
        if len(parts) == 3:
            out.discard(parts[2].strip())
    nf = set(nfc(n) for n in names)
    return sorted(p for p in out if p.startswith("data/") and nfc(p) not in nf)


def damage(case, ctx, root):
    import multibag
    rebuild(root)
    c = case["c"]
    a = os.path.join(root, "a")
    paths = aggr.write(c, a)
    names = [os.path.basename(p) for p in paths]
    i = min(case["which"], len(paths) - 1)
    ref = os.path.join(root, "ref")
    multibag.restore_bag(paths[-1], ref)
    rf = bags.tree(ref)[0]
    # the archive's bytes are to depend on the case only
    for d, ds, fs in os.walk(paths[i]):
        for f in ds + fs:
            os.utime(os.path.join(d, f), (1577836800, 1577836800))
    os.utime(paths[i], (1577836800, 1577836800))
    z = bags.serialize(paths[i], paths[i], case["ext"])
    shutil.rmtree(paths[i])
    paths[i] = z
    good = open(z, "rb").read()
    ctx.tag("damaged " + case["ext"], "damaged head" if i == len(paths) - 1 else "damaged member")
    for j, dmg in enumerate(case["damage"]):
        b = bytearray(good)
        at = dmg[1] * len(b) // 1001 if len(dmg) > 1 else 0
        if dmg[0] == "cut":
            del b[at:]
        elif dmg[0] == "flip":
            b[dmg[1] % len(b)] ^= dmg[2]
        elif dmg[0] == "zero":
            b[at:at + dmg[2]] = bytes(len(b[at:at + dmg[2]]))
        elif dmg[0] == "drop":
            del b[at:at + dmg[2]]
        else:
            del b[:]
        if bytes(b) == good:
            continue
        ctx.nontrivial()
        with open(z, "wb") as f:
            f.write(b)
        snaps = [(p, bags.snapshot(p)) for p in paths]
        dest = os.path.join(root, "dest%d" % j)
        where = "member %s damaged by %r:" % (os.path.basename(z), dmg)
        raised = False
        try:
            multibag.restore_bag(paths[-1], dest)
        except Exception as ex:
            raised = True
            ctx.add("damage: raised")
        for p, snap in snaps:
            d = bags.snapdiff(snap, bags.snapshot(p))
            require(not d, "%s %s was changed: %s", where, os.path.basename(p), d[:2])
        if raised:
            continue
        f, d = bags.tree(dest)
        want = {p: x for p, x in rf.items() if p.startswith("data/")}
        got = {p: x for p, x in f.items() if p.startswith("data/")}
        if want == got:
            ctx.add("damage: same payload")
            continue
        probs = bags.loc_problem(dest)
        if probs is None and not lacking(z):
            # nothing can be noticed if the damaged archive still reads as a bag with everything it lists (a tar file ends, for its
            # readers, at the first damaged header or with the file)
            ctx.add("damage: archive reads as another bag")
            continue
        require(probs is not None, "%s restoring returned normally with a valid bag of other payload: %s", where,
                describe({"bag": (want, [])}, {"bag": (got, [])})[:3])
        ctx.add("damage: restored bag is invalid")
