"""the head bag of a split: members, lookup, version, validity; sources that are head bags themselves"""
import os
from hypothesis import strategies as st
from .. import bags, splitting, headgen
from ..engine import fail, require

ID, LEVEL = "C04", "exploration"
CASES = {"quick": 2800, "thorough": 70000}
RULE = ("case = random valid bag, in about half of the cases itself a head bag (members, lookup, deletions, own tag "
        "directory name; hand-written or made by make_single_multibag), x splitter or hand-made plan x naming x head version; "
        "non-trivial: 2 or more output bags, or a head bag source; distinct by case hash")


@st.composite
def strategy(draw):
    case = draw(splitting.split_case(info="yes"))
    case["headver"] = draw(st.sampled_from(["1", None, "2.0", "beta 3"]))
    kind = draw(st.sampled_from(["plain", "plain", "head", "head", "single"]))
    case["kind"] = kind
    if kind != "plain":
        case["bag"].pop("encoding", None)
    if kind == "head":
        case = draw(splitting.head_source(case))
    return case


def check(case, ctx):
    import multibag
    from multibag.access.multibag import open_headbag
    from multibag.validate.headbag import HeadBagValidator
    from multibag.validate.base import ERROR
    kind, h = case["kind"], case.get("head")
    os.makedirs(ctx.dirpath("src")), os.makedirs(ctx.dirpath("out"))
    srcdir = bags.write_bag(ctx.dirpath("src"), case["bag"], headgen.extra(h) if h else None)
    name = case["bag"]["name"]
    if kind == "single":
        multibag.make_single_multibag(srcdir, "1.5")
        h = {"members": [[name, None, None]], "lookup": [[f[0], name] for f in case["bag"]["files"] if f[0].startswith("data/")],
             "deleted": [], "tagdir": "multibag"}
    superseded = splitting.superseded(h)
    plan = splitting.make_plan(case, ctx, srcdir)
    if case["headver"]:
        plan.head_version = case["headver"]
    outs = list(plan.apply_iter(ctx.dirpath("out")))
    splitting.tag_case(case, ctx, len(outs))
    ctx.tag("source:" + kind)
    ctx.nontrivial(len(outs) > 1 or kind != "plain")
    require(outs, "the split wrote no bag")
    names = [os.path.basename(o) for o in outs]
    trees = [bags.tree(o) for o in outs]
    for n, (f, d) in zip(names, trees):
        inf = bags.info_dict(bags.parse_info(f["bag-info.txt"]))
        ishead = n == names[-1]
        require(("Multibag-Head-Version" in inf) == ishead, "%r has Multibag-Head-Version %r, being %sthe last bag",
                n, inf.get("Multibag-Head-Version"), "" if ishead else "not ")
        require(("multibag/member-bags.tsv" in f) == ishead and ("multibag/file-lookup.tsv" in f) == ishead,
                "%r (%s) has multibag files %r", n, "head" if ishead else "not head", [p for p in f if p.startswith("multibag/")])
        probs = bags.bag_problems(files=f, dirs=d)
        require(not probs, "output bag %r is not a valid bag: %s", n, probs[:3])
    hf = trees[-1][0]
    inf = bags.info_dict(bags.parse_info(hf["bag-info.txt"]))
    require(inf["Multibag-Head-Version"] == [case["headver"] or "1"], "head version is %r, wanted %r",
            inf["Multibag-Head-Version"], case["headver"] or "1")
    # members
    got = [m[0] for m in headgen.parse_members(hf["multibag/member-bags.tsv"])]
    want = ([m[0] for m in h["members"] if m[0] not in names] if h else []) + names
    require(got == want, "member list is %r, expected %r", got, want)
    # lookup
    where = {}
    for n, (f, d) in zip(names, trees):
        for p in bags.nonspecial(f):
            if not (n == names[-1] and p in ("multibag/member-bags.tsv", "multibag/file-lookup.tsv",
                                             "multibag/aggregation-info.txt", "multibag/deleted.txt")):
                where[p] = n
    sf = bags.nonspecial(bags.tree(srcdir)[0])
    for p in sf:
        require(p in where or p in superseded, "%r of the source is in no output bag", p)
    lu = headgen.parse_lookup(hf["multibag/file-lookup.tsv"])
    ld = dict(lu)
    require(len(ld) == len(lu), "the lookup lists a path more than once: %r", lu)
    for p in sf:
        if p not in superseded:
            require(ld.get(p) == where[p], "lookup of %r is %r, the file is in %r", p, ld.get(p), where[p])
    for p, b in lu:
        if p not in sf:
            require(b not in names, "lookup says %r is in output bag %r, which does not have it", p, b)
    if h:
        for p, b in h["lookup"]:
            if p not in where and b not in names:
                require(ld.get(p) == b, "lookup of %r is %r, the source head bag said %r", p, ld.get(p), b)
        gd = set(headgen.parse_deleted(hf.get("multibag/deleted.txt", b"")))
        require(gd == set(h["deleted"]), "deleted paths are %r, those of the source head bag were %r", gd, h["deleted"])
    else:
        require(set(ld) <= set(sf), "lookup has paths which the source does not have: %r", sorted(set(ld) - set(sf)))
        require("multibag/deleted.txt" not in hf, "a deleted list from nowhere")
    # as seen through the library
    hb = open_headbag(outs[-1], readonly=bool(len(names) % 2))
    require(hb.is_head_multibag() and hb.head_version == (case["headver"] or "1"), "the head bag reports version %r", hb.head_version)
    require(hb.member_bag_names == want, "member_bag_names is %r, expected %r", hb.member_bag_names, want)
    for p in list(ld)[:6]:
        require(hb.lookup_file(p) == ld[p], "lookup_file(%r) is %r, not %r", p, hb.lookup_file(p), ld[p])
    res = HeadBagValidator(outs[-1]).validate()
    bad = [i.description for i in res.failed(ERROR)]
    require(not bad, "the head bag does not pass head bag validation: %r", bad[:3])
