"""size limits and packing"""
import os
from hypothesis import strategies as st
from .. import bags, splitting, gens
from ..engine import fail, require

ID, LEVEL = "C03", "exploration"
CASES = {"quick": 5000, "thorough": 120000}
RULE = ("case = random valid bag with many equal and boundary sizes x both splitters x maximum and target sizes chosen "
        "around sums of file sizes; non-trivial: at least 2 size-limited output bags; distinct by case hash")

_sizes = st.one_of(st.integers(0, 12), st.sampled_from([0, 1, 5, 10, 10, 10, 20, 30, 50, 99, 100, 101]))


@st.composite
def strategy(draw):
    few = st.sampled_from(gens.PLAIN)
    c = draw(splitting.split_case(max_files=16, forms=["splitter"], sizes=_sizes, big=False, comp=few, crowd=14))
    return c


def check(case, ctx):
    srcdir, outs, plan = splitting.do_split(case, ctx)
    splitting.tag_case(case, ctx, len(outs))
    size = {f[0]: f[1] for f in case["bag"]["files"]}
    res = set(p.lstrip("/") for p in splitting.forhead_paths(case)) & set(size)
    groups = []
    for o in outs:
        f, d = bags.tree(o)
        groups.append([p for p in f if p in size])
    for g in groups[:-1]:
        require(not (set(g) & res), "a bag that is not the head holds the reserved %r", sorted(set(g) & res))
    collecting = bool(res) or bool(bags.empty_dirs_of(list(size), case["bag"]["dirs"] + ["data"]))
    lim = groups[:-1] if collecting else groups
    ctx.nontrivial(len(lim) > 1)
    if len(size) > 20:
        ctx.tag("more than 20 files")
    mx = case["max"]
    tg = case["target"] or mx
    if tg < mx:
        ctx.tag("target below maximum")
    for i, g in enumerate(lim):
        tot = sum(size[p] for p in g)
        require(g, "output bag %d holds no file", i + 1)
        big = max(size[p] for p in g)
        if tot > mx:
            ctx.tag("oversize file")
            # a file of no size next to it neither hurts nor is asked for
            require(big > mx and tot == big and len(g) == 1,
                    "output bag %d holds %d bytes in %d files (%r), the maximum is %d", i + 1, tot, len(g),
                    sorted(g), mx)
        else:
            require(tot - big <= tg, "output bag %d holds %d bytes (largest file %d), though the target is %d",
                    i + 1, tot, big, tg)
        later = [p for h in lim[i + 1:] for p in h]
        if collecting:
            # what is in the collecting bag without having been reserved
            later += [p for p in groups[-1] if p not in res]
        if tot <= tg and tot <= mx:
            fit = [p for p in later if tot + size[p] <= mx]
            require(not fit, "output bag %d was closed with %d bytes (target %d, maximum %d) though %r (%d bytes) would "
                    "have fitted", i + 1, tot, tg, mx, fit[0] if fit else "", size[fit[0]] if fit else 0)
        if case["splitter"] == "near":
            ok = False
            for p in g:
                if size[p] != big:
                    continue
                D = os.path.dirname(p)
                inD = sum(size[q] for q in g if os.path.dirname(q) == D)
                if all(os.path.dirname(q) == D for q in g):
                    ok = True
                    break
                ctx.tag("bag with neighbors")
                if not [q for q in later if os.path.dirname(q) == D and inD + size[q] <= mx]:
                    ok = True
                    break
            require(ok, "output bag %d of the neighborly splitter took files of other directories (%r) although files of "
                    "its first directory would have fitted", i + 1, sorted(g))
