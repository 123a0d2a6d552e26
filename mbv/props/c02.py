"""placement, bytes and checksums of a split's output bags"""
import os
from hypothesis import strategies as st
from .. import bags, splitting, headgen
from ..engine import fail, require

ID, LEVEL = "C02", "exploration"
CASES = {"quick": 3600, "thorough": 90000}
RULE = ("case = random valid bag x splitter or hand-made plan (source as path, open bag, read-only bag, zip, tgz) x limits x "
        "reserved files x naming; non-trivial: at least 2 output bags and at least 2 files; distinct by case hash")


@st.composite
def strategy(draw):
    case = draw(splitting.split_case())
    if draw(st.integers(0, 4)) == 0:
        case = draw(splitting.head_source(case))
    return case


def check(case, ctx):
    h = case.get("head")
    srcdir, outs, plan = splitting.do_split(case, ctx, headgen.extra(h) if h else None)
    if h:
        ctx.tag("source is a head bag")
    splitting.tag_case(case, ctx, len(outs))
    ctx.nontrivial(len(outs) > 1 and len(case["bag"]["files"]) > 1)
    require(outs, "the split wrote no bag")
    verify(case["bag"], srcdir, outs, splitting.forhead_paths(case) if case["form"] == "splitter" else [],
           splitting.superseded(h))
    listed = sorted(os.listdir(ctx.dirpath("out")))
    require(listed == sorted(os.path.basename(o) for o in outs),
            "the split reported bags %r but wrote %r", [os.path.basename(o) for o in outs], listed)


HEADFILES = {"multibag/member-bags.tsv", "multibag/file-lookup.tsv", "multibag/aggregation-info.txt",
             "multibag/deleted.txt"}


def verify(spec, srcdir, outs, forhead=(), superseded=()):
    sf, sd = bags.source(srcdir, spec)
    want = {p: b for p, b in bags.nonspecial(sf).items() if p not in superseded}
    wante = bags.empties(sf, sd)
    spm, stm = bags.manifests(sf)[0], bags.manifests(sf, "tagmanifest")[0]
    where, ewhere = {}, {}
    trees = []
    for k, o in enumerate(outs):
        n = os.path.basename(o)
        f, d = bags.tree(o)
        trees.append((f, d))
        probs = bags.bag_problems(files=f, dirs=d)
        require(not probs, "output bag %r is not a valid bag: %s", n, probs[:3])
        lp = bags.loc_problem(o)
        require(lp is None, "output bag %r is not a valid bag (bagit library): %s", n, lp)
        sv = bags.info_dict(bags.parse_info(sf["bagit.txt"]))
        ov = bags.info_dict(bags.parse_info(f["bagit.txt"]))
        require(sv["BagIt-Version"] == ov.get("BagIt-Version"), "bagit.txt of %r says %r, the source's %r", n, ov, sv)
        for p, b in bags.nonspecial(f).items():
            if k == len(outs) - 1 and p in HEADFILES:
                continue
            require(p in want, "output bag %r has %r, which is not in the source", n, p)
            require(b == want[p], "%r in output bag %r has other bytes than in the source", p, n)
            where.setdefault(p, []).append(n)
        for e in bags.empties(f, d):
            if e == "data":
                continue
            require(e in wante, "output bag %r has an empty directory %r, which is not one in the source", n, e)
            ewhere.setdefault(e, []).append(n)
        opm, otm = bags.manifests(f)[0], bags.manifests(f, "tagmanifest")[0]
        for alg in set(spm) | set(opm):
            w = {p: h for p, h in spm.get(alg, {}).items() if p in f}
            g = opm.get(alg, {})
            require(w == g, "manifest-%s of %r records %r, the source recorded %r", alg, n,
                    {p: g.get(p) for p in set(w) | set(g) if w.get(p) != g.get(p)},
                    {p: w.get(p) for p in set(w) | set(g) if w.get(p) != g.get(p)})
        for alg in stm:
            for p, h in stm[alg].items():
                if p in f and not bags.is_special(p) and p not in superseded:
                    require(otm.get(alg, {}).get(p) == h, "tagmanifest-%s of %r records %r for %r, the source %r",
                            alg, n, otm.get(alg, {}).get(p), p, h)
    for p in sorted(want):
        require(len(where.get(p, [])) == 1, "%r of the source is in %d output bags %r", p, len(where.get(p, [])), where.get(p))
    for e in sorted(wante - {"data"}):
        require(len(ewhere.get(e, [])) == 1, "empty directory %r of the source is in %d output bags %r",
                e, len(ewhere.get(e, [])), ewhere.get(e))
    head = os.path.basename(outs[-1])
    for p in forhead:
        p = p.lstrip("/")
        if p in want:
            require(where[p] == [head], "%r, reserved for the head bag %r, is in %r", p, head, where[p])
    return where, trees
