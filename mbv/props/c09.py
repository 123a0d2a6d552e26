"""conversion to a single-bag aggregation"""
import os
from hypothesis import strategies as st
from .. import bags, gens, headgen
from ..engine import fail, require

ID, LEVEL = "C09", "exploration"
CASES = {"quick": 2400, "thorough": 60000}
RULE = ("case = generated bag (own tags, tag files, several algorithms) x version and PID x way of converting (function, maker with own "
        "tag directory, include/exclude selections in one or several calls, comment and extra columns) x 0-2 repetitions; non-trivial: "
        "the bag has payload files and bag-info tags; distinct by case hash")
ADDED = {"Multibag-Version", "Multibag-Reference", "Multibag-Tag-Directory", "Multibag-Head-Version"}


@st.composite
def strategy(draw):
    bag = draw(gens.bag(max_files=8))
    if bag["info"] is not None and draw(st.integers(0, 5)) == 0:
        bag["info"] = list(bag["info"])
        bag["info"].insert(draw(st.integers(0, len(bag["info"]))),
                           ["Internal-Sender-Description", "This bag complies with the Multibag BagIt profile."])
    files = [f[0] for f in bag["files"]]
    dirs = sorted(set(p for f in files for p in ancestors(f)))
    case = {"bag": bag, "version": draw(st.sampled_from(["1", "1", "2.0", "v 3", "0"])),
            "pid": draw(st.sampled_from([None, None, "doi:10.1/2", "http://h/x.zip"])),
            "slash": draw(st.sampled_from(["", "", "/", "."])), "repeat": draw(st.integers(0, 2)), "way": draw(st.sampled_from(["func", "func", "maker", "select"])),
            "edit": draw(st.sampled_from([None, None, "Internal-Sender-Description", "X-Note", "Bag-Count"]))}
    case["tagdir"] = draw(st.sampled_from(["multibag", "multibag", "mbag", "meta/mb", "multibag2", "multi"])) if case["way"] != "func" else "multibag"
    top = case["tagdir"].split("/")[0]
    bag["files"] = [f for f in bag["files"] if f[0].split("/")[0] not in (top, "mbag", "meta")]
    bag["dirs"] = [d for d in bag["dirs"] if d.split("/")[0] not in (top, "mbag", "meta")]
    files = [f[0] for f in bag["files"]]
    dirs = sorted(set(p for f in files for p in ancestors(f)))
    if case["way"] == "select":
        pool = files + dirs + ["data", "nosuch", "data/nosuch"]
        like = gens.lookalikes(files) or pool
        calls = []
        for _ in range(draw(st.integers(1, 3))):
            inc = draw(st.one_of(st.none(), st.sampled_from(pool), st.lists(st.sampled_from(pool), max_size=3)))
            exc = draw(st.one_of(st.none(), st.sampled_from(pool), st.sampled_from(like), st.lists(st.sampled_from(pool + like), max_size=3)))
            calls.append([inc, exc, draw(st.booleans())])
        calls[0][2] = True
        case["calls"] = calls
        case["comment"] = draw(st.sampled_from([None, "my # bag"]))
        case["cols"] = draw(st.sampled_from([[], ["a", "b c"]]))
    return case


def ancestors(f):
    ps = f.split("/")
    return ["/".join(ps[:i]) for i in range(1, len(ps))]


def select(files, inc, exc):
    """(certainly selected, possibly selected) files: a file that is named in both lists is left open, as the documentation and
    the code disagree about it"""
    inc = ["data"] if inc is None else [inc] if isinstance(inc, str) else inc
    exc = [] if exc is None else [exc] if isinstance(exc, str) else exc
    sure, maybe = set(), set()
    for i in inc:
        if i in files:
            (maybe if i in exc else sure).add(i)
            continue
        if i in exc:
            continue
        for f in files:
            if f.startswith(i + "/"):
                anc = [a for a in ancestors(f) if a == i or a.startswith(i + "/")]
                if f in exc or any(a in exc for a in anc):
                    continue
                # an excluded directory above the included one
                if any(a in exc for a in ancestors(f)):
                    maybe.add(f)
                else:
                    sure.add(f)
    return sure, maybe


def check(case, ctx):
    from multibag.amend import make_single_multibag, SingleMultibagMaker
    from multibag.access.multibag import open_headbag, is_headbag
    from multibag.access.bagit import open_bag
    from multibag.validate import HeadBagValidator
    from multibag.validate.base import ERROR
    spec = case["bag"]
    bd = bags.write_bag(ctx.dirpath(), spec)
    before, bdirs = bags.tree(bd)
    ctx.tag("way:" + case["way"], "repeat:%d" % case["repeat"])
    ctx.nontrivial(bool(spec["files"]) and bool(spec["info"]))
    arg = bd + "/" if case["slash"] == "/" else bd
    if case["slash"] == ".":
        os.chdir(bd)
        arg = "."
        ctx.tag("given as .")
    td = case["tagdir"]
    own = [p for p in before if not bags.is_special(p)]
    prev = None
    for i in range(case["repeat"] + 1):
        sure, maybe = set(), set()
        wm = [spec["name"], case["pid"], None, []]
        if case["way"] == "func":
            make_single_multibag(arg, case["version"], case["pid"])
        elif case["way"] == "maker":
            SingleMultibagMaker(arg, td).convert(case["version"], case["pid"])
        else:
            mk = SingleMultibagMaker(arg, td)
            mk.write_member_bags(case["pid"], case["comment"], *case["cols"])
            for inc, exc, trunc in case["calls"]:
                mk.write_file_lookup(inc, exc, trunc)
                s, m = select(own, inc, exc)
                if trunc:
                    sure, maybe = s, m
                else:
                    sure, maybe = sure | s, maybe | m
            mk.update_info(case["version"])
            wm = [spec["name"], case["pid"], case["comment"], case["cols"]]
        if case["way"] != "select":
            sure = set(p for p in own if p.startswith("data/"))
        verify(case, bd, before, bdirs, wm, sure, maybe, ctx)
        after = bags.tree(bd)[0]
        if prev is not None:
            for p in sorted(set(prev) | set(after)):
                if p.startswith("tagmanifest") or p == "bag-info.txt":
                    continue
                require(prev.get(p) == after.get(p), "converting again changed %r: %r -> %r", p, prev.get(p), after.get(p))
            # the profile's description replaces nothing and is not repeated
            pi, ai = [bags.info_dict(bags.parse_info(x["bag-info.txt"])) for x in (prev, after)]
            pi.pop("Bag-Size", None)
            ai.pop("Bag-Size", None)
            require(pi == ai, "converting again changed the tags from %r to %r", pi, ai)
        prev = after
        if case.get("edit") and i < case["repeat"]:
            # the owner changes the tags before the bag is converted again
            import bagit
            ctx.tag("tags edited in between")
            b = bagit.Bag(bd)
            v = b.info.get(case["edit"], [])
            b.info[case["edit"]] = (v if isinstance(v, list) else [v]) + ["edit %d" % i]
            b.save()
            prev = bags.tree(bd)[0]
            before = dict(before, **{"bag-info.txt": prev["bag-info.txt"]})
            if case["edit"] == "Bag-Count":
                prev = None
        require(is_headbag(bd), "is_headbag() is False for the converted bag")
        hb = open_headbag(bd)
        require(hb.head_version == case["version"], "head_version is %r", hb.head_version)
        require([[m.name, m.uri, m.comment, list(m.info)] for m in hb.member_bags()] == [wm], "member_bags() is %r, expected %r",
                [[m.name, m.uri, m.comment, list(m.info)] for m in hb.member_bags()], [wm])
        for p in own:
            if p not in maybe or p in sure:
                w = spec["name"] if p in sure else None
                require(hb.lookup_file(p) == w, "lookup_file(%r) is %r, expected %r", p, hb.lookup_file(p), w)
        bad = HeadBagValidator(bd).validate(ERROR).failed(ERROR)
        require(not bad, "converted bag fails head bag validation: %s", bad and bad[0].description)
        require(open_bag(bd).is_head_multibag(), "the converted bag is not a head bag")


def verify(case, bd, before, bdirs, wm, sure, maybe, ctx):
    spec, td = case["bag"], case["tagdir"]
    f, d = bags.tree(bd)
    probs = bags.bag_problems(files=f, dirs=d)
    require(not probs, "converted bag is not valid: %s", probs[:3])
    lp = bags.loc_problem(bd)
    require(lp is None, "converted bag is not valid (bagit library): %s", lp)
    for p in sorted(set(before) | set(f)):
        if p in ("bag-info.txt",) or p.startswith("tagmanifest-") and "/" not in p:
            continue
        if p.startswith(td + "/"):
            require(p[len(td) + 1:] in ("member-bags.tsv", "file-lookup.tsv"), "unexpected multibag file %r", p)
            continue
        require(p in before, "the conversion added %r", p)
        require(p in f, "the conversion removed %r", p)
        require(f[p] == before[p], "the conversion changed %r: %r -> %r", p, before[p][:200], f[p][:200])
    extra = d - bdirs - set(ancestors(td + "/x"))
    require(not extra and bdirs <= d, "the conversion changed the directories: added %r, removed %r", sorted(extra), sorted(bdirs - d))
    for n in ("member-bags.tsv", "file-lookup.tsv"):
        require(td + "/" + n in f, "there is no %s in %s", n, td)
    mem = headgen.parse_members(f[td + "/member-bags.tsv"])
    require(mem == [(wm[0], wm[1], wm[2], wm[3])], "member-bags.tsv has %r, expected %r", mem, wm)
    lu = headgen.parse_lookup(f[td + "/file-lookup.tsv"])
    require(len(set(lu)) == len(lu), "file-lookup.tsv repeats lines: %r", lu)
    got = set(x[0] for x in lu)
    require(all(x[1] == wm[0] for x in lu), "file-lookup.tsv names other bags: %r", lu)
    for p in sorted(sure - got):
        fail("file-lookup.tsv lacks %r", p)
    for p in sorted(got - sure - maybe):
        fail("file-lookup.tsv has %r, which was not to be included", p)
    # the order of tag values is kept
    was = bags.info_dict(bags.parse_info(before.get("bag-info.txt", b"")))
    now = bags.info_dict(bags.parse_info(f["bag-info.txt"]))
    for k in sorted(set(was) - {"Bag-Size", "Bag-Count", "Internal-Sender-Description"}):
        require(now.get(k) == was[k], "tag %s was %r, is now %r", k, was[k], now.get(k))
    new = set(now) - set(was) - ADDED - {"Bag-Size", "Internal-Sender-Description"}
    require(not new, "the conversion added the tags %r", sorted(new))
    require("Bag-Count" not in now, "Bag-Count is still there: %r", now.get("Bag-Count"))
    w = was.get("Internal-Sender-Description", [])
    g = now.get("Internal-Sender-Description", [])
    require(g[:len(w)] == w, "Internal-Sender-Description was %r, is now %r", w, g)
    add = g[len(w):]
    has = any("complies with the Multibag BagIt profile" in x for x in w)
    require(len(add) == (0 if has else 1) and all("Multibag" in x for x in add), "Internal-Sender-Description was %r, is now %r", w, g)
    require(now.get("Multibag-Head-Version") == [case["version"]], "Multibag-Head-Version is %r", now.get("Multibag-Head-Version"))
    require(now.get("Multibag-Version") == ["0.4"], "Multibag-Version is %r", now.get("Multibag-Version"))
    require(now.get("Multibag-Tag-Directory", ["multibag"]) == [td], "Multibag-Tag-Directory is %r", now.get("Multibag-Tag-Directory"))
    require(len(now.get("Bag-Size", [])) == 1, "Bag-Size is %r", now.get("Bag-Size"))
