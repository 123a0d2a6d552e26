"""split -> restore round trip"""
import os, shutil
from hypothesis import strategies as st
from .. import bags, splitting
from ..engine import fail, require

ID, LEVEL = "C01", "exploration"
CASES = {"quick": 2400, "thorough": 60000}
RULE = ("case = random valid bag (tree, names, sizes, algorithms, bag-info) x splitter or hand-made plan x limits x "
        "reserved files x naming x serialization of each output bag; non-trivial: the split made at least 2 bags, or "
        "the source has an empty directory, tag file or look-alike name; distinct by case hash")


@st.composite
def strategy(draw):
    case = draw(splitting.split_case())
    case["ser"] = [draw(st.sampled_from(["", "", "", ".zip", ".tar", ".tar.gz", ".tar.bz2", ".tgz"]))
                   for _ in range(draw(st.integers(0, 4)))]
    case["compdir"] = draw(st.booleans())
    case["headser"] = draw(st.integers(0, 3)) == 0
    return case


def check(case, ctx):
    import multibag
    srcdir, outs, plan = splitting.do_split(case, ctx)
    splitting.tag_case(case, ctx, len(outs))
    ctx.nontrivial(len(outs) > 1 or case["bag"]["dirs"] or
                   any(not f[0].startswith("data/") or bags.is_special(f[0].rsplit("/", 1)[-1])
                       for f in case["bag"]["files"]))
    require(outs, "the split wrote no bag")
    head = outs[-1]
    if case["ser"]:
        for i, bd in enumerate(outs):
            ext = case["ser"][i % len(case["ser"])]
            if bd == outs[-1] and not case["headser"]:
                continue
            if ext:
                ar = bags.serialize(bd, bd, ext)
                shutil.rmtree(bd)
                ctx.tag("serialized")
                if bd == outs[-1]:
                    head = ar
    dest = ctx.dirpath("restored")
    kw = {"compdir": ctx.dirpath("out")} if case["compdir"] else {}
    multibag.restore_bag(head, dest, **kw)
    compare(case["bag"], srcdir, dest)


def compare(spec, srcdir, dest):
    """restored bag at dest == source bag at srcdir"""
    sf, sd = bags.source(srcdir, spec)
    df, dd = bags.tree(dest)
    want, got = bags.nonspecial(sf), bags.nonspecial(df)
    for p in sorted(set(want) - set(got)):
        fail("%r of the source bag is missing from the restored bag", p)
    for p in sorted(set(got) - set(want)):
        fail("the restored bag has %r, which the source does not have", p)
    for p in want:
        require(want[p] == got[p], "bytes of %r differ in the restored bag (%d vs %d bytes)", p, len(want[p]), len(got[p]))
    we, ge = bags.empties(sf, sd), bags.empties(df, dd)
    require(we == ge, "empty directories differ: source %r, restored %r", sorted(we), sorted(ge))
    probs = bags.bag_problems(files=df, dirs=dd)
    require(not probs, "restored bag is not valid: %s", probs[:3])
    lp = bags.loc_problem(dest)
    require(lp is None, "restored bag is not valid (bagit library): %s", lp)
    sm, dm = bags.manifests(sf)[0], bags.manifests(df)[0]
    for alg in sm:
        for p, h in sm[alg].items():
            require(dm.get(alg, {}).get(p) == h, "%s checksum of %r recorded in the source is %s in the restored bag",
                    alg, p, dm.get(alg, {}).get(p))
    si = bags.info_dict(bags.parse_info(sf.get("bag-info.txt", b"")))
    di = bags.info_dict(bags.parse_info(df.get("bag-info.txt", b"")))
    for i in (si, di):
        i.pop("Payload-Oxum", None)
        i.pop("Bag-Size", None)
    if spec["info"] is not None:
        require(si == di, "bag-info of the restored bag differs: source %r, restored %r", si, di)
