"""Shared generator and driver for the checks on splitting."""
import os, shutil, logging
from hypothesis import strategies as st
from . import gens, bags, headgen
from .engine import fail, require

LOG = logging.getLogger("mbv.check")
LOG.setLevel(logging.DEBUG)
LOG.propagate = False
LOG.addHandler(logging.NullHandler())
NAMES = ["goob", "out", "x.y", "m b", "gr\u00fcn", "bag"]


@st.composite
def split_case(draw, max_files=10, info="maybe", forms=None, sizes=gens.size, comp=gens.component,
               heads=False, min_files=0, big=True, forhead=True, crowd=24):
    spec = draw(gens.bag(max_files=max_files, min_files=min_files, info=info, sizes=sizes, comp=comp, big=big))
    if crowd and draw(st.integers(0, crowd)) == 0:
        spec = draw(gens.crowded(spec))
    spec = draw(gens.encoded(spec))
    if spec["info"] and draw(st.integers(0, 4)) == 0:
        spec["fold"] = draw(st.sampled_from(["\n  ", "\n\t", "\r\n "]))
    case = {"bag": spec}
    sz = [f[1] for f in spec["files"]]
    tot = sum(sz)
    how = draw(st.sampled_from(["free", "sum", "one", "big", "tiny"]))
    if how == "free" or not sz:
        mx = draw(st.integers(1, 600))
    elif how == "sum":
        sub = draw(st.lists(st.sampled_from(sz), min_size=1, max_size=4))
        mx = max(1, sum(sub) + draw(st.sampled_from([0, 0, -1, 1])))
    elif how == "one":
        mx = max(1, draw(st.sampled_from(sz)) + draw(st.sampled_from([0, 0, -1, 1])))
    elif how == "big":
        mx = tot + draw(st.integers(0, 3)) or 1
    else:
        mx = draw(st.integers(1, 5))
    case["max"] = mx
    t = draw(st.sampled_from(["none", "none", "half", "free", "over", "sum"]))
    case["target"] = {"none": None, "half": max(1, mx // 2), "free": draw(st.integers(1, max(1, mx))),
                      "over": mx + 5, "sum": max(1, min(mx, (sz[0] if sz else 1)))}[t]
    case["splitter"] = draw(st.sampled_from(["well", "near"]))
    case["form"] = draw(st.sampled_from(forms or ["splitter", "splitter", "splitter", "hand-path", "hand-bag",
                                                  "hand-ro", "hand-zip", "hand-tgz"]))
    if case["form"] != "splitter":
        k = draw(st.integers(1, 4))
        case["parts"] = [draw(st.integers(-1, k - 1)) for _ in range(len(spec["files"]))]
        case["nparts"] = k
    fh = []
    if forhead and spec["files"] and draw(st.integers(0, 2)) == 0:
        for _ in range(draw(st.integers(1, 3))):
            fh.append([draw(st.integers(0, len(spec["files"]) - 1)), draw(st.booleans())])
        if draw(st.integers(0, 4)) == 0:
            fh.append([-1, False])
    case["forhead"] = fh
    nm = draw(st.sampled_from(["default", "base", "iter"]))
    case["naming"] = None if nm == "default" else \
        (draw(st.sampled_from(NAMES)) if nm == "base" else [draw(st.sampled_from(NAMES))])
    case["log"] = draw(st.integers(0, 3)) == 0
    case["trail"] = draw(st.integers(0, 9)) == 0
    case["rename"] = draw(st.sampled_from([None] * 6 + ["reverse", "rotate", "other"]))
    return case


@st.composite
def head_source(draw, case):
    """make the case's source bag a head bag itself"""
    b = case["bag"]
    b.pop("encoding", None)
    h = draw(headgen.head(b["name"]))
    if draw(st.integers(0, 2)) == 0:
        # a member with a name that an output bag may get
        nm = case["naming"]
        nm = nm[0] + "-%02d" if isinstance(nm, list) else (nm or os.path.splitext(b["name"])[0]) + "_%d.mbag"
        h["members"].insert(0, [nm % draw(st.integers(1, 3)), None, None])
    case["head"] = h
    ps = set(f[0] for f in b["files"])
    own = [[p, b["name"]] for p in sorted(ps) if p.startswith("data/")]
    h["lookup"] = own + [x for x in h["lookup"] if x[0] not in ps]
    b["info"] = (b["info"] or []) + headgen.info(h)
    if h["tagdir"]:
        b["files"] = [f for f in b["files"] if not (f[0] + "/").startswith(h["tagdir"] + "/")]
        b["dirs"] = [d for d in b["dirs"] if not (d + "/").startswith(h["tagdir"] + "/")]
    if "parts" in case:
        case["parts"] = case["parts"][:len(b["files"])]
    case["forhead"] = [x for x in case["forhead"] if x[0] < len(b["files"])]
    return case


def superseded(h):
    """the tag files of a head bag that the new head bag's replace"""
    td = (h and h["tagdir"]) or "multibag"
    return set(td + "/" + x for x in ("member-bags.tsv", "file-lookup.tsv", "deleted.txt", "aggregation-info.txt")) if h else set()


def forhead_paths(case):
    out = []
    for i, slash in case.get("forhead", []):
        p = "data/no such file" if i < 0 else case["bag"]["files"][i][0]
        out.append(("/" if slash else "") + p)
    return out


def names_iter(base):
    i = 0
    while True:
        i += 1
        yield "%s-%02d" % (base, i)


def make_plan(case, ctx, srcdir):
    """the plan for splitting, via the public API; returns (plan, kind)"""
    import multibag
    from multibag.split import SplitPlan, Splitter
    from multibag.access.bagit import Bag, ReadOnlyBag
    nm = case.get("naming")
    basis = names_iter(nm[0]) if isinstance(nm, list) else nm
    src = srcdir
    if case["form"] == "splitter":
        cls = {"well": multibag.WellPackedSplitter, "near": multibag.NeighborlySplitter}[case["splitter"]]
        kw = {}
        if case.get("forhead"):
            kw["forhead"] = forhead_paths(case)
        if case.get("target") is not None:
            kw["targetsize"] = case["target"]
        spl = cls(case["max"], **kw)
        if case.get("trail") and basis:
            src = srcdir + "/"
        return spl.plan(src, basis)

    form = case["form"]
    if form == "hand-zip":
        src = bags.serialize(srcdir, srcdir, ".zip")
    elif form == "hand-tgz":
        src = bags.serialize(srcdir, srcdir, ".tgz", direntries=False)
    elif form == "hand-bag":
        src = Bag(srcdir)
    elif form == "hand-ro":
        src = ReadOnlyBag(srcdir)

    class Hand(Splitter):
        """a strategy that assigns files to bags as the case says and completes the plan"""
        def _create_plan(self, bagpath):
            out = SplitPlan(src)
            groups = [[] for _ in range(case["nparts"])]
            for f, g in zip(case["bag"]["files"], case["parts"]):
                if g >= 0:
                    groups[g].append(f[0])
            for g in groups:
                if g:
                    out._manifests.append({"contents": g, "totalsize": 0})
            out.complete_plan()
            return out
    return Hand().plan(srcdir, basis)


def do_split(case, ctx, extra=None, nopass=None, src="src", out="out", setup=None):
    """write the source bag and split it.  Returns (srcdir, [output bag dirs], plan)"""
    os.makedirs(ctx.dirpath(src), exist_ok=True)
    os.makedirs(ctx.dirpath(out), exist_ok=True)
    srcdir = bags.write_bag(ctx.dirpath(src), case["bag"], extra)
    if setup:
        setup(srcdir)
    plan = make_plan(case, ctx, srcdir)
    outs = []
    names = None
    if case.get("rename") and not case.get("head"):
        # named anew when applied
        names = [m["name"] for m in plan.manifests()]
        names = {"reverse": names[::-1], "rotate": names[1:] + names[:1], "other": ["bag %d" % i for i in range(len(names))]}[case["rename"]]
        ctx.tag("renamed when applied")
    for bd in plan.apply_iter(ctx.dirpath(out), iter(names) if names else None, info_nopass=nopass, **({"logger": LOG} if case.get("log") else {})):
        require(os.path.isdir(bd), "the split reported %s but there is no such bag", bd)
        outs.append(bd)
    return srcdir, outs, plan


def tag_case(case, ctx, nout):
    ctx.tag("form:" + case["form"], "bags:%s" % ("1" if nout == 1 else "2-3" if nout < 4 else "4-9" if nout < 10 else "10+"))
    if case["form"] == "splitter":
        ctx.tag("splitter:" + case["splitter"])
    if case["bag"]["dirs"]:
        ctx.tag("has empty dirs")
    if case.get("forhead"):
        ctx.tag("forhead")
    if len(case["bag"]["algs"]) > 1:
        ctx.tag("multi-algorithm")
    if case["bag"]["partial"]:
        ctx.tag("partial manifests")
    if case.get("log"):
        ctx.tag("with a logger")
    if case["bag"].get("fold"):
        ctx.tag("folded bag-info lines")
    if case["bag"].get("bom"):
        ctx.tag("byte order marks")
    if case["bag"].get("encoding"):
        ctx.tag("encoding:" + case["bag"]["encoding"])
    if case["bag"]["info"] is None:
        ctx.tag("no bag-info")
    if any(not f[0].startswith("data/") for f in case["bag"]["files"]):
        ctx.tag("tag files")
    if any(f[0].rsplit("/", 1)[-1] in ("bagit.txt", "bag-info.txt", "fetch.txt") or "manifest-" in f[0]
           for f in case["bag"]["files"]):
        ctx.tag("look-alike names")
    if any(f[1] == 0 for f in case["bag"]["files"]):
        ctx.tag("zero-size files")
    if any(ord(c) > 127 for f in case["bag"]["files"] for c in f[0]):
        ctx.tag("non-ASCII names")
