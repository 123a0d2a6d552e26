"""Aggregations of bags written by us, and the reference model of combining them."""
import os, hashlib, shutil
from hypothesis import strategies as st
from . import bags, gens, headgen
from .engine import fail, require

HEADTAGS = ["Multibag-Version", "Multibag-Reference", "Multibag-Tag-Directory", "Multibag-Head-Version",
            "Multibag-Head-Deprecates"]
NAMES = ["m1", "m2", "agg_1.mbag", "agg_2.mbag", "m 3", "b\u00e4g", "m1.x", "zz", "m1-2", "M1"]


@st.composite
def aggregation(draw, max_members=4, max_files=9, fetch=True, deleted=True, tagdir=True):
    files, empt = draw(gens.paths(1, max_files, True))
    files = [f for f in files if f.split("/")[0] not in ("mbag", "multibag")]
    empt = [e for e in empt if e.split("/")[0] not in ("mbag", "multibag")]
    n = draw(st.integers(1, max_members))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    version = draw(st.sampled_from(["0.97", "0.97", "1.0"]))
    common = draw(st.lists(st.sampled_from(gens.ALGS), min_size=1, max_size=2, unique=True))
    mixed = version == "0.97" and draw(st.booleans())
    fpool = ["data/fetch%d" % i for i in range(3)] + ["data/f d/x y"] if fetch and draw(st.integers(0, 2)) == 0 else []
    fpool = [f for f in fpool if f not in files and f.split("/")[1] not in [x.split("/")[1] for x in files + empt if x.startswith("data/")]]
    if fpool:
        # next to files that are there, too
        fpool += ["%s/to fetch" % d for d in sorted(set(os.path.dirname(f) for f in files))[:2] if d.startswith("data/")]
    members = []
    usual = {p: draw(gens.size) for p in files}     # versions of a file may have the same size
    for i in range(n):
        fl = []
        for p in files:
            if draw(st.booleans()):
                fl.append([p, usual[p] if draw(st.integers(0, 2)) == 0 else draw(gens.size), draw(st.integers(0, 9)) * 10 + i])
        dl = [e for e in empt if draw(st.booleans())]
        algs = draw(st.lists(st.sampled_from(gens.ALGS), min_size=1, max_size=2, unique=True)) if mixed else list(common)
        spec = {"name": names[i], "files": fl, "dirs": dl, "algs": algs,
                "tagalgs": draw(st.sampled_from([algs, algs, [], ["sha1"]])), "version": version,
                "sep": draw(st.sampled_from(["  ", " "])), "partial": False, "oxum": draw(st.booleans()),
                "info": draw(gens.baginfo(4))}
        if i < n - 1 and draw(st.integers(0, 9)) == 0:
            spec["info"] = None
            spec["oxum"] = False
        if draw(st.integers(0, 7)) == 0:
            spec["bom"] = draw(st.lists(st.sampled_from(["manifest", "tagmanifest"]), min_size=1, max_size=2, unique=True))
        fe = []
        for p in fpool:
            if draw(st.booleans()):
                fe.append(["http://h/%s/%d" % (names[i].replace(" ", "_"), len(fe)), draw(st.sampled_from(["-", "5", "1024"])), p])
        spec["fetch"] = fe
        spec["nonl"] = bool(fe) and draw(st.booleans())
        # an old head bag among the members
        if i < n - 1 and draw(st.integers(0, 3)) == 0 and spec["info"] is not None:
            spec["oldhead"] = True
        members.append(spec)
    case = {"members": members}
    dele = []
    if deleted and draw(st.booleans()):
        pool = list(files) + empt + fpool + ["data/nosuch"]
        if draw(st.integers(0, 5)) == 0:
            # not in the bag, so that there is nothing to delete
            dele.append(draw(st.sampled_from(["../nosuch", "/mbv-nosuch/x", "../../nosuch/x"])))
        dirs = sorted(set(os.path.dirname(f) for f in files + fpool * 2 if os.path.dirname(f) not in ("", "data")))
        for _ in range(draw(st.integers(1, 3))):
            dele.append(draw(st.sampled_from(pool + dirs + gens.lookalikes(files) * 2)))
    case["deleted"] = sorted(set(dele))
    case["tagdir"] = draw(st.sampled_from([None, None, None, "multibag", "mbag", "docs/mbag"])) if tagdir else None
    if case["tagdir"] == "docs/mbag":
        # a directory that is not the multibag tag directory's alone
        if any(p.split("/")[0] == "docs" for p in files + empt):
            case["tagdir"] = None
        else:
            draw(st.sampled_from(members))["files"].append(["docs/other.txt", draw(gens.size), 7])
    case["agginfo"] = draw(gens.baginfo(4)) if draw(st.booleans()) else None
    case["mbver"] = "0.4"
    if not case["deleted"] and case["agginfo"] is None:
        # earlier profile versions have no deletions and no aggregation-info, and 0.2 separates its fields with spaces
        case["mbver"] = draw(st.sampled_from(["0.4", "0.4", "0.3", "0.2"]))
        if case["mbver"] == "0.2" and any(len(x.split()) != 1 for x in names + files):
            case["mbver"] = "0.3"
    case["nolookup"] = draw(st.integers(0, 5)) == 0
    return case


def write(case, root):
    """write all bags into root; returns the paths, head bag last"""
    os.makedirs(root, exist_ok=True)
    out = []
    n = len(case["members"])
    td = case["tagdir"] or "multibag"
    for i, spec in enumerate(case["members"]):
        spec = dict(spec)
        extra = None
        names = [m["name"] for m in case["members"][:i + 1]]
        h = {"members": [[x, None, None] for x in names], "lookup": [], "deleted": [], "tagdir": case["tagdir"],
             "version": "1", "deprecates": [], "mbver": case.get("mbver")}
        if i == n - 1:
            h = head_info(case)
        elif not spec.get("oldhead"):
            h = None
        if h:
            extra = headgen.extra(h)
            spec["info"] = list(spec["info"]) + headgen.info(h)
        out.append(bags.write_bag(root, spec, extra))
    return out


def head_files(case):
    """the head bag's multibag tag files {path: bytes}"""
    return headgen.extra(head_info(case))


def head_info(case):
    h = {"members": [[m["name"], None, None] for m in case["members"]], "deleted": case["deleted"], "agginfo": case["agginfo"],
         "tagdir": case["tagdir"], "version": "2", "deprecates": [], "mbver": case.get("mbver")}
    where = {}
    for m in case["members"]:
        for f in m["files"]:
            where[f[0]] = m["name"]
    h["lookup"] = sorted([p, b] for p, b in where.items())
    if any(m.get("oldhead") for m in case["members"]):
        h["deprecates"] = ["1"]
    return h


def gone(path, deleted):
    return any(path == d or path.startswith(d + "/") for d in deleted)


def model(case):
    """(files {path: bytes}, checksums {path: {alg: hash}}, fetch {path: line}, info or None)"""
    files, sums, fetch = {}, {}, {}
    for spec in case["members"]:
        for p, b in bags.spec_files(spec).items():
            files[p] = b
            if p.startswith("data/"):
                sums[p] = {a: hashlib.new(a, b).hexdigest() for a in bags.algs_for(spec, p)}
        for f in spec.get("fetch") or []:
            fetch[f[2]] = "%s %s %s" % tuple(f)
            sums[f[2]] = {a: hashlib.new(a, f[0].encode()).hexdigest() for a in spec["algs"]}
    for d in (files, sums, fetch):
        for p in list(d):
            if gone(p, case["deleted"]):
                del d[p]
    return files, sums, fetch


def model_dirs(case):
    """all directories of the combined bag"""
    out = set()
    for spec in case["members"]:
        for p in [f[0].rpartition("/")[0] for f in spec["files"]] + list(spec["dirs"]):
            while p:
                out.add(p)
                p = p.rpartition("/")[0]
    return set(p for p in out if not gone(p, case["deleted"])) | {"data"}


def verify(case, dest, what="restored bag", info=True):
    wf, ws, wfe = model(case)
    f, d = bags.tree(dest)
    got = bags.nonspecial(f)
    td = case["tagdir"] or "multibag"
    left = [p for p in list(got) + sorted(d) if (p + "/").startswith(td + "/")]
    require(not left, "%s still has multibag tag files: %r", what, left[:4])
    for p in sorted(set(wf) - set(got)):
        fail("%s lacks %r", what, p)
    for p in sorted(set(got) - set(wf)):
        fail("%s has %r, which %s", what, p, "was deleted" if gone(p, case["deleted"]) else "no member has")
    wd = model_dirs(case)
    for p in sorted(d - wd):
        fail("%s has a directory %r, which %s", what, p, "was deleted" if gone(p, case["deleted"]) else "no member has")
    for p in sorted(wd - d):
        fail("%s lacks the directory %r", what, p)
    for p in wf:
        require(got[p] == wf[p], "%s: content of %r is not that of the last member that has it", what, p)
    probs = bags.bag_problems(files=f, dirs=d)
    require(not probs, "%s is not a valid bag: %s", what, probs[:3])
    if not wfe:
        lp = bags.loc_problem(dest)
        require(lp is None, "%s is not a valid bag (bagit library): %s", what, lp)
    pm = bags.manifests(f)[0]
    gs = {}
    for a in pm:
        for p, hsh in pm[a].items():
            gs.setdefault(p, {})[a] = hsh
    for p in sorted(set(ws) | set(gs)):
        require(gs.get(p) == ws.get(p), "%s: checksums of %r are %r, expected those of the bag it came from: %r", what, p,
                gs.get(p), ws.get(p))
    gf = [l.strip() for l in f.get("fetch.txt", b"").decode("utf-8").split("\n") if l.strip()]
    require(sorted(gf) == sorted(wfe.values()), "%s: fetch list is %r, expected %r", what, gf, sorted(wfe.values()))
    if "fetch.txt" in f and wfe:
        require(f["fetch.txt"].endswith(b"\n"), "%s: fetch.txt lacks its final newline", what)
    inf = bags.info_dict(bags.parse_info(f["bag-info.txt"]))
    for k in HEADTAGS:
        require(k not in inf, "%s still has the tag %s: %r", what, k, inf.get(k))
    pl = [len(b) for p, b in wf.items() if p.startswith("data/")]
    require(inf.get("Payload-Oxum") == ["%d.%d" % (sum(pl), len(pl))], "%s: Payload-Oxum is %r, the payload is %d.%d", what,
            inf.get("Payload-Oxum"), sum(pl), len(pl))
    if info:
        wi = case["agginfo"] if case["agginfo"] is not None else case["members"][-1]["info"]
        wi = bags.info_dict([(k, v) for k, v in bags.parse_info(bags.info_text(wi).encode("utf-8"))
                             if k not in ("Payload-Oxum", "Bag-Size")])
        for x in ("Payload-Oxum", "Bag-Size"):
            inf.pop(x, None)
        if case["agginfo"] is not None:
            require(inf == wi, "%s: bag-info is %r, aggregation-info %r", what, inf, wi)
        else:
            for k, v in wi.items():
                g = inf.get(k) or []
                require(all(x in g for x in v), "%s: tag %s is %r, the head bag's %r", what, k, g, v)


def tags(case, ctx):
    n = len(case["members"])
    ctx.tag("members:%d" % n)
    if case["deleted"]:
        ctx.tag("deletions")
        fl = set(f[0] for m in case["members"] for f in m["files"])
        if any(d not in fl and gone(f, [d]) for d in case["deleted"] for f in fl):
            ctx.tag("deleted directory")
    seen, over = set(), False
    for m in case["members"]:
        for f in m["files"]:
            over = over or f[0] in seen
            seen.add(f[0])
    if over:
        ctx.tag("overlapping members")
    if any(m["fetch"] for m in case["members"]):
        ctx.tag("fetch lists")
    if case["tagdir"] == "mbag":
        ctx.tag("own tag directory")
    if len(set(tuple(sorted(m["algs"])) for m in case["members"])) > 1:
        ctx.tag("different algorithms")
    if case["agginfo"] is not None:
        ctx.tag("aggregation-info")
    ctx.tag("profile:" + (case.get("mbver") or "0.4"))
    if any(m.get("oldhead") for m in case["members"]):
        ctx.tag("old head bag member")
    return over
