"""histories of amendments"""
import os
from hypothesis import strategies as st
from .. import bags, gens, aggr, headgen
from ..engine import fail, require

ID, LEVEL = "C08", "exploration"
CASES = {"quick": 1000, "thorough": 20000}
RULE = ("case = a plain bag or an aggregation (1-3 members, old heads, deletions, deprecations), then 1-4 amendments each by a new head "
        "bag and 0-2 further bags (directory, open bag or serialized; with PIDs, comments, include and exclude lists, kept profile version), files overlapping earlier ones, deletions in "
        "between; non-trivial: 2 or more amendments with a path supplied by more than one bag; distinct by case hash")


@st.composite
def onebag(draw, name, files, i):
    fl = [[p, draw(st.one_of(gens.size, st.just(11))), 100 + draw(st.integers(0, 3)) * 100 + i] for p in files if draw(st.integers(0, 2)) > 0]
    algs = draw(st.sampled_from([["sha256"], ["md5"], ["md5", "sha256"]]))
    return {"name": name, "files": fl, "dirs": [], "algs": algs, "tagalgs": draw(st.sampled_from([algs, []])), "version": "0.97",
            "sep": "  ", "partial": False, "oxum": draw(st.booleans()), "info": draw(gens.baginfo(3)), "fetch": []}


@st.composite
def strategy(draw):
    base = draw(aggr.aggregation(max_members=draw(st.sampled_from([1, 1, 3])), max_files=5, fetch=False))
    base["agginfo"] = None
    base["members"] = [dict(m, version="0.97", dirs=[]) for m in base["members"]]
    files = sorted(set(f[0] for m in base["members"] for f in m["files"]))
    base["deleted"] = [d for d in base["deleted"] if d in files]
    if base["deleted"]:
        base["mbver"] = "0.4"
    plain = len(base["members"]) == 1 and draw(st.booleans())
    if plain:
        base["deleted"] = []
        base["tagdir"] = None
    depr = draw(st.sampled_from([[], [], ["0"], ["0.1", "0.5"]]))
    new, _ = draw(gens.paths(1, 4, True))
    pool = gens.resolve(files + [f for f in new if f.split("/")[0] not in ("mbag", "multibag")])
    exclpool = gens.lookalikes(pool) * 2 + sorted(set(pool) | set(os.path.dirname(f) for f in pool if os.path.dirname(f) not in ("", "data")))
    steps = []
    versions = draw(st.lists(st.sampled_from(["3", "4.0", "5a", "9", "10", "11", "1.9", "1.10", "0.9", "v7", "B", "a"]), min_size=4, max_size=4, unique=True))
    for i in range(draw(st.integers(1, 4))):
        st_ = {"head": draw(onebag("h%d%s" % (i, draw(st.sampled_from(["", ".mbag", " x"]))), pool, 10 * i)),
               "extras": [draw(onebag("e%d-%d" % (i, j), pool, 10 * i + j + 1)) for j in range(draw(st.sampled_from([0, 0, 1, 2])))],
               "version": versions[i],
               "form": draw(st.sampled_from(["path", "path", "slash", "bag", "ro", "head", ".zip", ".tar.gz"])),
               "eform": draw(st.sampled_from(["path", "bag", ".zip", ".tar"])),
               "pid": draw(st.sampled_from([None, "doi:10.1/x", "http://a/b.zip"])),
               "comment": draw(st.sampled_from([None, None, "new head"])),
               "colinfo": draw(st.sampled_from([[], [], ["1234", "z"]])),
               "api": draw(st.booleans()),
               "excl": draw(st.lists(st.sampled_from(exclpool), max_size=2, unique=True)) if draw(st.integers(0, 2)) == 0 else [],
               "keepver": draw(st.integers(0, 3)) == 0,
               "stale": draw(st.integers(0, 5)) == 0,
               "tagfiles": draw(st.integers(0, 2)) == 0,
               "delete": draw(st.lists(st.sampled_from(pool + ["data/nosuch"]), max_size=2, unique=True))
               if draw(st.integers(0, 2)) == 0 else []}
        steps.append(st_)
    return {"base": base, "plain": plain, "deprecates": depr, "steps": steps}


def amendee_arg(path, form, scratch):
    from multibag.access.bagit import Bag, open_bag
    from multibag.access.multibag import open_headbag
    if form == "slash":
        return path + "/"
    if form == "bag":
        return Bag(path)
    if form == "ro":
        return open_bag(path)
    if form == "head":
        return open_headbag(path)
    if form.startswith("."):
        return bags.serialize(path, os.path.join(scratch, os.path.basename(path)), form)
    return path


def check(case, ctx):
    from multibag.amend import amend_bag_with, Amender
    from multibag.access.multibag import HeadBag, open_headbag
    from multibag.restore import restore_bag
    from multibag.validate import HeadBagValidator
    from multibag.validate.base import ERROR
    a, ser = ctx.dirpath("a"), ctx.dirpath("ser")
    os.mkdir(a)
    os.mkdir(ser)
    base = case["base"]
    for m in base["members"]:
        m["info"] = m["info"] or []
    if case["plain"]:
        cur = bags.write_bag(a, base["members"][0])
        ctx.tag("plain amendee")
    else:
        cur = write_base(case, a)
        if case["deprecates"]:
            ctx.tag("amendee with deprecations")
    # the model
    members = [[m["name"], None, None, []] for m in base["members"]]
    specs = list(base["members"])
    lookup = {}
    for m in base["members"]:
        for f in m["files"]:
            if not case["plain"] or f[0].startswith("data/"):
                lookup[f[0]] = [m["name"]]
    profver = "0.4" if case["plain"] else base.get("mbver") or "0.4"
    deleted = set(base["deleted"])
    depr = [] if case["plain"] else list(case["deprecates"])
    lastver = None if case["plain"] else "2"
    history = []
    if not case["plain"]:
        history.append((cur, list(specs), set(deleted), base["tagdir"] or "multibag"))
    over = False
    for i, s in enumerate(case["steps"]):
        spec, extra = dict(s["head"]), None
        if s["stale"]:
            h = {"members": [["stale", None, None], [spec["name"], None, None]], "lookup": [["data/stale", "stale"]], "deleted": [],
                 "tagdir": None, "version": "0.0.1", "deprecates": ["0.0.0"]}
            extra = headgen.extra(h)
            spec["info"] = list(spec["info"]) + headgen.info(h)
            ctx.tag("new head was a head before")
        newhead = bags.write_bag(a, spec, extra)
        eb = [bags.write_bag(a, e) for e in s["extras"]]
        am = amendee_arg(cur, s["form"], ser)
        eargs = [amendee_arg(e, s["eform"], ser) for e in eb]
        ctx.tag("amendee:" + s["form"])
        if s["api"]:
            am = Amender(am, newhead, s["pid"], s["comment"], s["colinfo"])
            keep = s["keepver"] and (profver != "0.2" or case.get("keep02"))
            am.init_from_amendee(**({"keepprofver": True} if keep else {}))
            if keep:
                ctx.tag("keepprofver:" + profver)
            else:
                profver = "0.4"
            for j, e in enumerate(eargs):
                am.add_amending_bag(e, include(s, s["extras"][j]), s["excl"] or None, s["pid"] and s["pid"] + "%d" % j, s["comment"],
                                    s["colinfo"])
            am.finalize(s["version"], include(s, s["head"]), s["excl"] or None)
            if s["excl"]:
                ctx.tag("excluded from the lookup")
            if s["tagfiles"]:
                ctx.tag("tag files in the lookup")
        else:
            amend_bag_with(am, newhead, s["version"], *eargs)
            profver = "0.4"
        # model
        for j, (sp, p) in enumerate(zip(s["extras"] + [s["head"]], eb + [newhead])):
            if s["api"]:
                pid = s["pid"] if sp is s["head"] else (s["pid"] and s["pid"] + "%d" % j)
                members.append([sp["name"], pid, s["comment"], s["colinfo"]])
            else:
                members.append([sp["name"], None, None, []])
            for f in sp["files"]:
                if s["api"] and aggr.gone(f[0], s["excl"]):
                    pass
                elif f[0].startswith("data/") or (s["api"] and s["tagfiles"]):
                    over = over or f[0] in lookup
                    lookup[f[0]] = [sp["name"]]
                elif f[0] in lookup:
                    # not asked for: it may keep pointing to the earlier bag
                    lookup[f[0]] = lookup[f[0]] + [sp["name"]]
                if f[0] in deleted:
                    ctx.tag("deleted path supplied again")
                deleted.discard(f[0])
            specs.append(sp)
        if lastver is not None:
            depr.append(lastver)
        lastver = s["version"]
        where = "head bag %r of amendment %d" % (spec["name"], i + 1)
        ver = HeadBag(newhead).profile_version
        require(ver == profver, "%s: the profile version is %r, expected %r", where, ver, profver)
        verify_head(newhead, where, members, lookup, deleted, depr, case["plain"], s["version"], HeadBag(newhead))
        probs = bags.bag_problems(newhead)
        require(not probs, "%s is not a valid bag: %s", where, probs[:3])
        bad = HeadBagValidator(newhead).validate(ERROR).failed(ERROR)
        require(not bad, "%s fails head bag validation: %s", where, bad and bad[0].description)
        # what the amendment says about itself may be followed by deletions
        if s["delete"]:
            hb = open_headbag(newhead)
            for p in s["delete"]:
                hb.set_deleted(p)
            hb.save_deleted()
            hb.save()
            deleted.update(s["delete"])
            ctx.tag("deletions")
            require(set(HeadBag(newhead).deleted_paths()) == deleted, "%s: deleted paths are %r, expected %r", where,
                    sorted(HeadBag(newhead).deleted_paths()), sorted(deleted))
        history.append((newhead, list(specs), set(deleted), "multibag"))
        cur = newhead
    ctx.nontrivial(len(case["steps"]) > 1 and over)
    ctx.tag("amendments:%d" % len(case["steps"]))
    # every version can still be restored
    for i, (head, sp, dele, td) in enumerate(history):
        dest = ctx.dirpath("restored%d" % i)
        restore_bag(head, dest)
        # the members keep their own tag directories' contents: only the head's is dropped, all are called alike except the base's
        c = {"members": [dict(m, fetch=[]) for m in sp], "deleted": sorted(dele), "tagdir": td, "agginfo": None}
        verify_restored(c, dest, "version %d of %d restored from %r" % (i + 1, len(history), os.path.basename(head)), base["tagdir"])


def write_base(case, a):
    base = case["base"]
    out = []
    n = len(base["members"])
    for i, spec in enumerate(base["members"]):
        spec, extra, h = dict(spec), None, None
        names = [m["name"] for m in base["members"][:i + 1]]
        if i == n - 1:
            where = {}
            for m in base["members"]:
                for f in m["files"]:
                    where[f[0]] = m["name"]
            h = {"members": [[x, None, None] for x in names], "lookup": sorted([p, b] for p, b in where.items()),
                 "mbver": base.get("mbver"), "deleted": base["deleted"], "tagdir": base["tagdir"], "version": "2", "deprecates": case["deprecates"]}
        if h:
            extra = headgen.extra(h)
            spec["info"] = list(spec["info"]) + headgen.info(h)
        out.append(bags.write_bag(a, spec, extra))
    return out[-1]


def include(s, spec):
    """what to include of an amending bag: None (meaning data), or also all of its tag files"""
    if not s["tagfiles"]:
        return None
    return ["data"] + [x for x in sorted(set(f[0].split("/")[0] for f in spec["files"])) if x != "data" and x not in s["excl"]]


def verify_head(path, where, members, lookup, deleted, depr, plain, version, hb):
    got = [[m.name, m.uri, m.comment, list(m.info)] for m in hb.member_bags()]
    require([g[0] for g in got] == [m[0] for m in members], "%s: members are %r, expected %r", where, [g[0] for g in got],
            [m[0] for m in members])
    require(got == members, "%s: member entries are %r, expected %r", where, got, members)
    f = bags.tree(path)[0]
    info = bags.info_dict(bags.parse_info(f["bag-info.txt"]))
    td = (info.get("Multibag-Tag-Directory") or ["multibag"])[-1]
    names = [x[0] for x in headgen.parse_members(f[td + "/member-bags.tsv"])]
    require(names == [m[0] for m in members], "%s: member-bags.tsv lists %r, expected %r", where, names, members)
    lu = headgen.parse_lookup(f[td + "/file-lookup.tsv"])
    require(len(set(x[0] for x in lu)) == len(lu), "%s: file-lookup.tsv has repeated paths: %r", where, lu)
    lu = dict(lu)
    for p in sorted(lookup):
        if p in deleted:
            continue
        require(lu.get(p) in lookup[p], "%s: lookup of %r is %r, expected %r", where, p, lu.get(p), lookup[p])
        require(hb.lookup_file(p) in lookup[p], "%s: lookup_file(%r) is %r, expected %r", where, p, hb.lookup_file(p), lookup[p])
    for p in sorted(lu):
        require(p in lookup, "%s: lookup has %r, which no member has or which was not to be included", where, p)
    got = set(hb.deleted_paths())
    require(got == deleted, "%s: deleted paths are %r, expected %r", where, sorted(got), sorted(deleted))
    g = info.get("Multibag-Head-Deprecates", [])
    ok = [depr]
    if plain:
        ok.append(["1"] + depr)
    require(g in ok, "%s: deprecates %r, expected %r", where, g, depr)
    require(info.get("Multibag-Head-Version") == [version], "%s: head version is %r, expected %r", where,
            info.get("Multibag-Head-Version"), version)
    require(hb.head_version == version, "%s: head_version is %r", where, hb.head_version)


def verify_restored(c, dest, where, basetd):
    # a base tag directory of another name is content like any other for later heads
    wf = aggr.model(c)[0]
    f, d = bags.tree(dest)
    got = bags.nonspecial(f)
    own = c["tagdir"]
    ignore = [x + "/" for x in ("multibag", basetd or "multibag") if x != own]
    left = [p for p in got if p.startswith(own + "/")]
    require(not left, "%s still has multibag tag files: %r", where, left[:4])
    for p in sorted(set(wf) - set(got)):
        fail("%s lacks %r", where, p)
    for p in sorted(set(got) - set(wf)):
        if p.startswith(tuple(ignore) or ("\0",)):
            continue
        fail("%s has %r, which %s", where, p, "was deleted" if aggr.gone(p, c["deleted"]) else "is not in this version")
    for p in wf:
        require(got[p] == wf[p], "%s: content of %r is not that of this version", where, p)
    probs = bags.bag_problems(files=f, dirs=d)
    require(not probs, "%s is not a valid bag: %s", where, probs[:3])


def _onefile(name, path, salt, **kw):
    return dict({"name": name, "files": [[path, 5, salt]], "dirs": [], "algs": ["md5"], "tagalgs": [], "version": "0.97", "sep": "  ",
                 "partial": False, "oxum": False, "info": [], "fetch": []}, **kw)


# an aggregation of profile version 0.2, amended with keepprofver=True
FIXED = [{"base": {"members": [_onefile("m1", "data/a", 1)], "deleted": [], "tagdir": None, "agginfo": None, "mbver": "0.2"},
          "plain": False, "deprecates": [], "keep02": True,
          "steps": [{"head": _onefile("h0", "data/b", 2), "extras": [], "version": "3", "form": "path", "eform": "path", "pid": None,
                     "comment": None, "colinfo": [], "api": True, "excl": [], "keepver": True, "stale": False, "tagfiles": False,
                     "delete": []}]}]


def known(case, msg):
    if case.get("keep02") and "head bag 'h0' of amendment 1: members are [], expected ['m1', 'h0']" in msg:
        return "keepprofver-02"
