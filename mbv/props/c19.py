"""split plans: accounting, destinations, completion, naming"""
import os, copy
from hypothesis import strategies as st
from .. import gens, bags
from ..engine import fail, require

ID, LEVEL = "C19", "exploration"
CASES = {"quick": 3000, "thorough": 90000}
RULE = ("case = random bag (files, tag files, empty directories) x hand-made partial plan (paths shared between bags, paths not in the "
        "bag) or a splitter's plan x a sequence of name/complete/mutate-the-copies/apply steps with naming iterators of any length; "
        "non-trivial: at least 2 planned bags or a plan that had missing paths; distinct by case hash")

BASES = ["goob", "a.b", "m b", "gr\u00fcn", "x", "b_1", "b.mbag"]


@st.composite
def strategy(draw):
    spec = draw(gens.bag(max_files=8))
    crowd = draw(st.integers(0, 79)) == 0
    if crowd:
        spec = draw(gens.crowded(spec, 101, 130))
    n = len(spec["files"]) + len(spec["dirs"])
    case = {"bag": spec, "src": draw(st.sampled_from(["path", "path", "bag", "ro", "zip", "tgz"]))}
    if crowd or draw(st.integers(0, 2)) == 0:
        case["splitter"] = [draw(st.sampled_from(["well", "near"])), 1 if crowd else draw(st.integers(1, 300))]
        case["basis"] = draw(st.sampled_from([None, None] + BASES + [["list"], ["gen"], ["next"]]))
        case["plan"] = []
    else:
        # -1: a path which is not in the bag
        case["plan"] = [draw(st.lists(st.integers(-1, n - 1) if n else st.just(-1), max_size=5)) for _ in
                        range(draw(st.integers(0, 4)))]
        case["dup"] = draw(st.booleans())
    op = st.one_of(
        st.tuples(st.just("complete")), st.tuples(st.just("mutate")),
        st.tuples(st.just("name"), st.integers(-1, 2), st.booleans(), st.sampled_from(["list", "gen", "next", "namer"])),
        st.tuples(st.just("again")))
    case["ops"] = [list(o) for o in draw(st.lists(op, max_size=5))]
    case["apply"] = draw(st.sampled_from([None, None, ["gen", 0], ["list", 1], ["next", 2], ["gen", 20], ["namer", 20]]))
    return case


class NextOnly(object):
    def __init__(self, names):
        self.n = list(names)

    def __next__(self):
        if not self.n:
            raise StopIteration()
        return self.n.pop(0)


class IterNext(NextOnly):
    def __iter__(self):
        return self


def iterof(kind, names):
    if kind == "list":
        return iter(list(names))
    if kind == "gen":
        return (n for n in list(names))
    return IterNext(names)


class Model(object):
    def __init__(self, mans, required):
        self.mans = mans           # [[name or None, [paths]]]
        self.required = required

    def missing(self):
        return [p for p in self.required if not any(p in m[1] for m in self.mans)]


def norm(m):
    return [m.get("name"), list(m["contents"])]


def compare(plan, model, paths, ctx):
    got = list(plan.manifests())
    require([norm(m) for m in got] == model.mans, "the plan reports bags %r, expected %r", [norm(m) for m in got], model.mans)
    heads = [bool(m.get("ishead")) for m in got]
    require(heads == [False] * (len(heads) - 1) + [True] if heads else heads == [], "head flags are %r", heads)
    miss = sorted(model.missing())
    gm = list(plan.missing())
    require(len(set(gm)) == len(gm), "missing() repeats a path: %r", gm)
    require(sorted(gm) == miss, "the plan reports missing %r, expected %r", sorted(gm), miss)
    require(bool(plan.is_complete()) == (not miss), "is_complete() is %r but %d paths are missing", plan.is_complete(), len(miss))
    require(sorted(plan.required()) == sorted(model.required), "required() is %r, expected %r",
            sorted(plan.required()), sorted(model.required))
    for p in paths:
        want = None
        for m in model.mans:
            if p in m[1]:
                want = m
        d = plan.find_destination(p)
        if want is None:
            require(d is None, "find_destination(%r) is %r, but no bag lists it", p, d)
        else:
            require(d is not None and norm(d) == want, "find_destination(%r) is %r, expected %r", p, d, want)


def check(case, ctx):
    import multibag
    from multibag.split import SplitPlan, SimpleNamer
    from multibag.access.bagit import Bag, ReadOnlyBag
    os.makedirs(ctx.dirpath("src"))
    os.makedirs(ctx.dirpath("out"))
    srcdir = bags.write_bag(ctx.dirpath("src"), case["bag"])
    name = os.path.basename(srcdir)
    sf, sd = bags.tree(srcdir)
    required = sorted(bags.nonspecial(sf)) + sorted(bags.empties(sf, sd))
    universe = [f[0] for f in case["bag"]["files"]] + list(case["bag"]["dirs"])
    ghost = "data/not in the bag"
    sizes = {p: len(b) for p, b in sf.items()}

    def naming(kind, k):
        """an iterator of k names and those names"""
        names = ["N%d %s" % (naming.n, i) for i in range(k)]
        naming.n += 1
        if kind == "namer":
            base = "nm%d" % naming.n
            return SimpleNamer(base), ["%s_%d.mbag" % (base, i + 1) for i in range(200)]
        return iterof(kind, names), names
    naming.n = 0

    def source():
        k = case["src"]
        if k == "zip":
            return bags.serialize(srcdir, srcdir, ".zip")
        if k == "tgz":
            return bags.serialize(srcdir, srcdir, ".tgz", direntries=False)
        return {"path": lambda: srcdir, "bag": lambda: Bag(srcdir), "ro": lambda: ReadOnlyBag(srcdir)}[k]()

    if case.get("splitter"):
        kind, mx = case["splitter"]
        spl = {"well": multibag.WellPackedSplitter, "near": multibag.NeighborlySplitter}[kind](mx)
        basis = case["basis"]
        if isinstance(basis, list):
            b, names = naming(basis[0], 200)
            short = len(list(spl.plan(srcdir, "x").manifests())) - 1
            if short > 0:
                try:
                    spl.plan(srcdir, naming(basis[0], short)[0])
                    fail("planning %d bags with only %d names did not fail", short + 1, short)
                except RuntimeError:
                    pass
        else:
            b = basis
            base = basis or os.path.splitext(name)[0]
            names = ["%s_%d.mbag" % (base, i + 1) for i in range(200)]
        plan = spl.plan(srcdir, b)
        got = [norm(m) for m in plan.manifests()]
        require([g[0] for g in got] == names[:len(got)], "planned names are %r, expected %r", [g[0] for g in got], names[:len(got)])
        model = Model(got, required)
        require(not model.missing(), "a splitter's plan left out %r", model.missing())
        ctx.tag("splitter plan", *(["more than 99 bags"] if len(got) > 99 else []))
    else:
        plan = SplitPlan(source())
        compare(plan, Model([], required), universe[:2], ctx)
        mans = []
        seen = set()
        for part in case["plan"]:
            c = []
            for i in part:
                p = ghost if i < 0 else universe[i]
                if p in c or (p in seen and not case["dup"]):
                    continue
                c.append(p)
                seen.add(p)
            plan._manifests.append({"contents": list(c), "name": "p%d" % len(mans),
                                    "totalsize": sum(sizes.get(p, 0) for p in c)})
            mans.append(["p%d" % len(mans), c])
        model = Model(mans, required)
        ctx.tag("hand plan", "source:" + case["src"])
        if len(seen) < sum(len(m[1]) for m in mans):
            ctx.tag("path in several bags")
    paths = universe + [ghost, "data", "", "bagit.txt"]
    ctx.nontrivial(len(model.mans) > 1 or bool(model.missing()))
    compare(plan, model, paths, ctx)

    def complete():
        miss = model.missing()
        before = len(model.mans)
        r = plan.complete_plan()
        got = list(plan.manifests())
        if not miss:
            require([norm(m) for m in got] == model.mans, "completing a complete plan changed it")
            ctx.tag("complete: nothing missing")
            return
        require(len(got) == before + 1, "completing the plan made %d bags of %d", len(got), before)
        last = got[-1]
        require(sorted(last["contents"]) == sorted(miss), "the completing bag holds %r, missing were %r",
                sorted(last["contents"]), sorted(miss))
        require(last.get("name"), "the completing bag has no name")
        require(last["name"] not in [m[0] for m in model.mans], "the completing bag's name %r is used by another", last["name"])
        if not any(p in sd for p in miss):
            require(last.get("totalsize") == sum(sizes.get(p, 0) for p in miss), "the completing bag's total size is %r, expected %d",
                    last.get("totalsize"), sum(sizes.get(p, 0) for p in miss))
        model.mans.append(norm(last))
        ctx.tag("complete: added a bag")

    for op in case["ops"]:
        if op[0] == "complete":
            complete()
        elif op[0] == "mutate":
            for m in plan.manifests():
                m["name"] = "corrupted"
                del m["contents"][:]
                m["ishead"] = not m["ishead"]
                m["totalsize"] = -1
            for m in plan.manifests():
                m["contents"].append("data/corrupt")
            ctx.tag("copies mutated")
        elif op[0] == "name":
            n = len(model.mans)
            k = max(0, n + op[1])
            it, names = naming(op[3], k)
            if op[3] == "namer":
                k = 200
            if k < n:
                try:
                    plan.name_output_bags(it, reverse=op[2]) if op[2] else plan.name_output_bags(it)
                    fail("naming %d bags with an iterator of %d names did not fail", n, k)
                except RuntimeError:
                    pass
                ctx.tag("iterator ran out")
                # the plan's names after this are unspecified; name it again
                it, names = naming("list", n)
            if op[2]:
                plan.name_output_bags(it, reverse=True)
            else:
                plan.name_output_bags(it)
            for m, nm in zip(reversed(model.mans) if op[2] else model.mans, names):
                m[0] = nm
            ctx.tag("named" + (" in reverse" if op[2] else ""))
            if op[3] in ("list", "gen", "next") and k > n >= 0:
                rest = next(it, None)
                require(rest == names[n], "naming %d bags consumed other than %d names (next is %r)", n, n, rest)
        compare(plan, model, paths, ctx)

    # apply: the directories are named as planned, or by the iterator and then as planned
    if not model.mans:
        complete()
    if not model.mans:
        return
    want = [m[0] for m in model.mans]
    it = None
    if case["apply"]:
        it, names = naming(*case["apply"])
        k = min(len(names), len(want))
        want[:k] = names[:k]
        ctx.tag("apply: iterator " + ("ran out" if len(names) < len(model.mans) else "enough"))
    else:
        ctx.tag("apply: planned names")
    out = ctx.dirpath("out")
    got = []
    gen = plan.apply_iter(out, it) if it is not None else plan.apply_iter(out)
    for bd in gen:
        got.append(os.path.basename(bd))
        require(os.path.realpath(os.path.dirname(bd)) == os.path.realpath(out), "a bag was written to %s, not in %s", bd, out)
        require(sorted(os.listdir(out)) == sorted(got), "after %d bags the output directory has %r", len(got), os.listdir(out))
        i = len(got) - 1
        f, d = bags.tree(bd)
        have = set(p for p in bags.nonspecial(f) if not p.startswith("multibag/")) | (bags.empties(f, d) - {"data"})
        exp = set(p for p in model.mans[i][1] if p in required) - {"data"}
        exp -= {p for p in exp if p in sd and any(q.startswith(p + "/") for q in exp)}
        require(have == exp, "bag %r holds %r, planned were %r", got[-1], sorted(have), sorted(exp))
    require(got == want, "the bags written are named %r, expected %r", got, want)
    require([norm(m) for m in plan.manifests()] == model.mans, "applying the plan changed it")
    miss = model.missing()
    # the head bag's member list and lookup use the names used
    hd = os.path.join(out, got[-1])
    ml = open(os.path.join(hd, "multibag", "member-bags.tsv"), encoding="utf-8").read().split("\n")
    require([l.split("\t")[0] for l in ml if l.strip()] == want, "the member list is %r, expected %r", ml, want)
    where = {}
    for nm, m in zip(want, model.mans):
        for p in m[1]:
            if p in sf:
                where[p] = nm
    fl = open(os.path.join(hd, "multibag", "file-lookup.tsv"), encoding="utf-8").read().split("\n")
    lk = dict(l.split("\t")[:2] for l in fl if l.strip())
    require(lk == where, "the lookup is %r, expected %r", lk, where)
