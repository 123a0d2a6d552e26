"""paths that lead out of the bag"""
import os, io, shutil, zipfile, tarfile, time
from hypothesis import strategies as st
from .. import bags, gens, aggr, headgen, jail
from ..engine import fail, require

ID, LEVEL = "C17", "exploration"
CASES = {"quick": 2400, "thorough": 60000}
RULE = ("case = a path spelling (absolute, climbing, sibling-prefix, home directory, redundant, harmless) put into a manifest or fetch "
        "list, asked of an open bag, or put into the member list, deleted list, lookup, tag directory tag, reserved list or an archive "
        "entry of bags that are restored, split or amended; run as an unprivileged user inside a scratch zone with canary files, the "
        "whole zone outside the destination compared before and after; non-trivial: the path leads outside; distinct by case hash")
# Only paths inside the scratch zone are used: at most three '..' from a directory that is four levels below it.
REL = ["..", "../..", "../../..", "../%(sib)s", "../%(sib)s/keep", "../%(sib)s/sub/keep2", "../other/keep", "../../outside/canary",
       "../../outside", "data/../../%(sib)s/keep", "data/../../other", "./../%(sib)s/keep", "data//..//../other/keep", "../other/",
       "../%(sib)s/../other/keep", "data/sub/../../../other/keep", "../zz/x", "../new", "../%(sib)s/new", "../../outside/new/er"]
ABS = ["%(zone)s/outside/canary", "%(zone)s/outside", "%(zone)s/area/p/other/keep", "%(own)s/data/a", "%(own)sx/keep", "%(own)s", "%(zone)s/new",
       "//%(zone)s/outside/canary"]
HOME = ["~", "~/canary", "~/.bashrc", "~/new"]
SAFE = ["data/a", "data/sub/b", "data/./a", "data//a", "data/sub/../a", "./data/a", "data/nosuch", "data/..a", "data/...", "data/sub/..b/c",
        "data/a..", "data/~", "..data", "meta/~x", "data/sub/", "data", "."]


@st.composite
def strategy(draw):
    kind = draw(st.sampled_from(["manifest", "manifest", "fetch", "ask", "ask", "restore", "restore", "restore", "split", "amend", "amend"]))
    cls = draw(st.sampled_from(["rel", "rel", "abs", "home", "safe"]))
    path = draw(st.sampled_from({"rel": REL, "abs": ABS, "home": HOME, "safe": SAFE}[cls]))
    case = {"kind": kind, "cls": cls, "path": path, "name": draw(st.sampled_from(["bag", "b b", "x.y"])),
            "tm": draw(st.booleans()), "star": draw(st.booleans()), "ext": draw(st.sampled_from(bags.SERS)),
            "ver": draw(st.sampled_from(["0.97", "1.0"]))}
    if kind in ("restore", "amend", "split"):
        case["where"] = draw(st.sampled_from({"restore": ["deleted", "deleted", "deleted", "member", "lookup", "tagdir", "manifest", "fetch", "archive",
                                                          "archive", "archive", "agginfo"],
                                              "amend": ["deleted", "member", "lookup", "tagdir", "newtagdir", "newtagdir", "manifest", "include"],
                                              "split": ["manifest", "tagdir", "forhead", "forhead", "fetch", "archive"]}[kind]))
        if case["where"] in ("tagdir", "newtagdir") and draw(st.booleans()):
            case["cls"], case["path"] = "rel", draw(st.sampled_from(["data/../../new", "data/../../other", "./../new", "data/sub/../../../other/mb", "mb/../../new",
                                                                     "data/./../../%(sib)s/mb"]))
        case["dest"] = draw(st.sampled_from(["new", "inplace", "copy"]))
        case["fetcher"] = draw(st.booleans())
        case["more"] = draw(st.lists(st.sampled_from(REL + ABS[:3]), max_size=2))
        case["link"] = draw(st.sampled_from(["none", "none", "sym", "symdir", "hard"]))
        case["sub"] = draw(st.booleans())
    return case


BASE = {"files": [["data/a", 5, 1], ["data/sub/b", 7, 2], ["meta/t", 3, 1]], "dirs": [], "algs": ["sha256"], "tagalgs": [], "version": "0.97",
        "info": [["Source-Organization", "x"]], "oxum": False, "sep": "  ", "partial": False}


def zone(ctx, name):
    """zone/{home,outside}, zone/area/p/{other, <name>x, <name>}: the bag is four levels down; returns (zone, parent)"""
    z = ctx.dirpath("zone")
    p = os.path.join(z, "area", "p")
    for f in ("home/canary", "home/.bashrc", "outside/canary", "outside/sub/canary2", "area/p/other/keep", "area/p/other/deep/keep",
              "area/p/%sx/keep" % name, "area/p/%sx/sub/keep2" % name, "area/outside/canary"):
        bags.write_file(os.path.join(z, f), b"do not touch " + f.encode())
    return z, p


def spelled(case, z, own, path=None):
    name = os.path.basename(own)
    return (path or case["path"]) % {"zone": z, "own": own, "sib": name + "x"}


def leaves(p):
    """does the relative path p climb out?"""
    n = os.path.normpath(p)
    return os.path.isabs(p) or n == ".." or n.startswith("../") or p.startswith("~")


def check(case, ctx):
    import multibag, multibag.validate, zipfile, tarfile, bz2, gzip     # before the privileges are dropped
    jail.run(inside, case, ctx, None)


def inside(case, ctx):
    os.environ["HOME"] = ctx.dirpath("zone", "home")
    z, p = zone(ctx, case["name"])
    own = os.path.join(p, case["name"])
    ctx.tag("%s %s" % (case["kind"], case.get("where", "")), "path:" + case["cls"])
    ctx.nontrivial(case["cls"] != "safe")
    f = {"manifest": refused, "fetch": refused, "ask": ask}.get(case["kind"], operate)
    f(case, ctx, z, p, own)


def mkbag(p, case, path=None, where=None, **kw):
    spec = dict(BASE, name=case["name"], version=case["ver"])
    spec.update(kw)
    bd = bags.write_bag(p, spec)
    if where == "manifest":
        m = "tagmanifest-sha256.txt" if case["tm"] and not leaves(path) or (case["tm"] and where == "manifest") else "manifest-sha256.txt"
        if m.startswith("tag") and not os.path.exists(os.path.join(bd, m)):
            bags.write_tagmanifests(bd, ["sha256"])
        with io.open(os.path.join(bd, m), "a", encoding="utf-8") as f:
            f.write(u"%s %s%s\n" % ("0" * 64, "*" if case["star"] else " ", path))
    elif where == "fetch":
        with io.open(os.path.join(bd, "fetch.txt"), "w", encoding="utf-8") as f:
            f.write(u"http://e.org/x 10 data/fetchme\nhttp://e.org/y - %s\n" % path)
    return bd


def refused(case, ctx, z, p, own):
    from multibag.access.bagit import open_bag, ReadOnlyBag, Bag, BagError
    from multibag.access.extended import ExtendedReadWritableBag, as_extended
    path = spelled(case, z, own)
    if case["cls"] == "safe" and os.path.normpath(path) in ("data/a", "data/sub/b") and case["kind"] == "manifest":
        path = "data/c"         # listing a path twice is another matter
    bd = mkbag(p, case, path, case["kind"])
    zf = bags.serialize(bd, os.path.join(p, case["name"]), case["ext"])
    before = bags.snapshot(z)
    sib = case["name"] + "x" in path or path.startswith(own)
    forms = [("open_bag(directory)", lambda: open_bag(bd)), ("ReadOnlyBag(directory)", lambda: ReadOnlyBag(bd)),
             ("open_bag(serialized)", lambda: open_bag(zf))]
    if not sib:
        # (the bagit library's own class, which the writable bags use, does not see through sibling names)
        forms += [("Bag", lambda: Bag(bd)), ("ExtendedReadWritableBag", lambda: ExtendedReadWritableBag(bd))]
    for what, mk in forms:
        ex = None
        try:
            b = mk()
            list(b.files_to_be_fetched())
            list(b.fetch_entries())
        except BagError as e:
            ex = e
        if leaves(path):
            require(ex is not None, "%s accepts a bag whose %s names %r", what, case["kind"], path)
        else:
            require(ex is None, "%s refuses a bag whose %s names the harmless path %r: %s", what, case["kind"], path, ex)
    diff = bags.snapdiff(before, bags.snapshot(z))
    require(not diff, "opening a bag changed files: %s", diff[:3])


def ask(case, ctx, z, p, own):
    from multibag.access.bagit import open_bag, Bag
    from multibag.access.extended import as_extended, ExtendedReadWritableBag
    path = spelled(case, z, own)
    bd = mkbag(p, case)
    # things a climbing path would find
    zf = bags.serialize(bd, os.path.join(p, "ser"), case["ext"])
    out = bags.snapshot(z)
    dest = os.path.join(z, "area", "dest", "sub")
    forms = [("writable", lambda: ExtendedReadWritableBag(bd)), ("read-only", lambda: as_extended(open_bag(bd))),
             ("serialized", lambda: as_extended(open_bag(zf)))]
    hl = lambda: ExtendedReadWritableBag(bd)
    for what, mk in forms + [("hard-linking", hl)]:
        b = mk()
        if what == "hard-linking":
            b.replicate_with_hardlink = True
        cand = os.path.normpath(path)
        if case["cls"] == "safe":
            real = os.path.join(bd, cand)
            got = (b.exists(path), b.isfile(path), b.isdir(path))
            want = (os.path.exists(real), os.path.isfile(real), os.path.isdir(real))
            if not path.endswith("/"):
                require(got == want, "%s bag: (exists, isfile, isdir) of %r are %r, expected %r", what, path, got, want)
        elif case["cls"] == "abs" and what in ("read-only", "serialized"):
            # an absolute path is taken as relative to the root of the bag there; it must still not reach the real one
            require(not b.exists(path) and not b.isfile(path) and not b.isdir(path), "%s bag says that %r exists", what, path)
        elif case["cls"] == "abs" and path.startswith(bd) and not path.startswith(bd + "x"):
            pass                # the bag's own file, by its absolute path
        else:
            require(not b.exists(path) and not b.isfile(path) and not b.isdir(path), "%s bag says that %r exists", what, path)
            for ask_ in ("sizeof", "timesfor", "open_text_file"):
                try:
                    r = getattr(b, ask_)(path)
                except Exception:
                    continue
                if ask_ == "open_text_file":
                    r.close()
                fail("%s bag: %s(%r) gave %r, for a path outside the bag", what, ask_, path, r)
            try:
                w = list(b.walk(path))
            except Exception:
                w = []
            require(not w, "%s bag: walk(%r) gave %r", what, path, w[:2])
        os.makedirs(dest)
        bags.write_file(os.path.join(dest, "there"), b"x")
        before = bags.snapshot(z)
        raised = None
        try:
            b.replicate(path, dest)
        except Exception as ex:
            raised = ex
        after = bags.snapshot(z)
        pre = os.path.relpath(dest, z)
        diff = [d for d in bags.snapdiff(before, after) if not d.startswith(pre + "/") and not d.startswith(pre + ":")]
        require(not diff, "%s bag: replicate(%r) changed something outside its destination: %s", what, path, diff[:2])
        if case["cls"] in ("rel", "home"):
            require(raised is not None, "%s bag: replicate(%r) of a path outside the bag did not raise", what, path)
            diff = [d for d in bags.snapdiff(before, after) if d.split(": ")[0].endswith("there") or "/sub/" in d.split(": ")[0]]
            require(not diff, "%s bag: replicate(%r) of a path outside the bag copied something: %s", what, path, diff[:2])
        shutil.rmtree(os.path.join(z, "area", "dest"))
    sp = bags.snapshot(z)
    diff = [d for d in bags.snapdiff(out, sp) if not d.startswith("area: ")]
    require(not diff, "asking changed files: %s", diff[:3])


def archive(bd, fn, ext, hostile, link, zroot):
    """serialize bd, adding entries with hostile names (and links)"""
    z = bags.serialize(bd, fn, ext)
    name = os.path.basename(bd)
    os.remove(z)
    f, d = bags.tree(bd)
    ents = [(name + "/" + p, b) for p, b in sorted(f.items())] + [(h, b"evil") for h in hostile]
    if ext == ".zip":
        with zipfile.ZipFile(z, "w") as a:
            for n, b in ents:
                a.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), b)
    else:
        mode = {".tar": "w", ".tar.gz": "w:gz", ".tgz": "w:gz", ".tar.bz2": "w:bz2"}[ext]
        with tarfile.open(z, mode) as a:
            if link != "none":
                t = tarfile.TarInfo(name + "/data/ln")
                t.type = tarfile.LNKTYPE if link == "hard" else tarfile.SYMTYPE
                t.linkname = zroot + "/outside" + ("" if link == "symdir" else "/canary")
                a.addfile(t)
                if link == "symdir":
                    ents.append((name + "/data/ln/evil", b"evil"))
            for n, b in ents:
                t = tarfile.TarInfo(n)
                t.size = len(b)
                a.addfile(t, io.BytesIO(b))
    return z


def operate(case, ctx, z, p, own):
    import multibag
    from multibag.amend import Amender
    from multibag.access.multibag import open_headbag
    where, kind = case["where"], case["kind"]
    paths = [spelled(case, z, own)] + [spelled(case, z, own, m) for m in case["more"]]
    # the head bag (own) with one more member, beside it
    h = {"members": [["mem", None, None], [case["name"], None, None]], "lookup": [["data/a", "mem"], ["data/h", case["name"]]], "deleted": [],
         "tagdir": None, "version": "1", "deprecates": []}
    if where == "member":
        h["members"] = [[x, None, None] for x in paths] + h["members"]
    elif where == "lookup":
        h["lookup"] += [[x, "mem"] for x in paths] + [["data/q", paths[0]]]
    elif where == "deleted":
        h["deleted"] = paths + ["data/sub/b"]
    extra = headgen.extra(h)
    info = [["Source-Organization", "x"]] + headgen.info(h)
    if where == "tagdir":
        info.append(["Multibag-Tag-Directory", paths[0]])
    if where == "agginfo":
        extra["multibag/aggregation-info.txt"] = ("A: %s\n" % paths[0]).encode()
    head = bags.write_bag(p, dict(BASE, name=case["name"], files=[["data/h", 4, 3]], info=info), extra)
    mem = bags.write_bag(p, dict(BASE, name="mem"))
    if where in ("manifest", "fetch"):
        tgt = mem if case["sub"] or kind == "split" else head
        with io.open(os.path.join(tgt, "manifest-sha256.txt" if where == "manifest" else "fetch.txt"), "a", encoding="utf-8") as f:
            f.write((u"%s  %s\n" % ("0" * 64, paths[0])) if where == "manifest" else (u"http://e.org/y - %s\n" % paths[0]))
    if where == "archive":
        names = []
        for x in paths:
            names += ["mem/" + x, x] if not x.startswith("~") else ["mem/data/" + x]
        arc = archive(mem, os.path.join(p, "mem"), case["ext"], names, case["link"], z)
        if kind == "restore":
            shutil.rmtree(mem)
        else:
            mem = arc
    dest = None
    log = []
    if kind == "restore":
        if case["dest"] == "new":
            dest = os.path.join(p, "dest")
        elif case["dest"] == "copy":
            dest = os.path.join(p, "dest")
            shutil.copytree(head, dest)
        bags.write_file(os.path.join(p, "destx", "keep"), b"keep")
        kw = {}
        if case["fetcher"]:
            def fetcher(name, todir):
                log.append(todir)
                src = [x for x in (os.path.join(p, "mem" + e) for e in [""] + bags.SERS) if os.path.exists(x)][0]
                t = os.path.join(todir, os.path.basename(src))
                (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, t)
                return t
            kw["fetcher"] = fetcher
            ctx.tag("with fetcher")
        allowed = [os.path.relpath(dest or head, z)]
        if case["dest"] == "new":
            do = lambda: multibag.restore_bag(head, dest, **kw)
        else:
            do = lambda: multibag.restore_bag(head, dest, **kw)
    elif kind == "amend":
        ni = [["X", "y"]]
        if where == "newtagdir":
            ni.append(["Multibag-Tag-Directory", paths[0]])
        new = bags.write_bag(p, dict(BASE, name="new", info=ni))
        allowed = [os.path.relpath(new, z)]

        def do():
            am = Amender(head, new)
            am.init_from_amendee()
            am.add_amending_bag(mem, paths if where == "include" else None)
            am.finalize("2")
    else:
        out = os.path.join(p, "out")
        os.mkdir(out)
        allowed = [os.path.relpath(out, z)]
        src = head if where == "tagdir" else mem

        def do():
            from multibag.split import SplitPlan, Splitter
            kw = {"forhead": paths} if where == "forhead" else {}
            if where == "archive":
                class Hand(Splitter):
                    def _create_plan(self, bagpath):
                        pl = SplitPlan(src)
                        pl.complete_plan()
                        return pl
                Hand().split(src, out, "o")
            else:
                multibag.NeighborlySplitter(10, **kw).split(src, out, "o")
    before = bags.snapshot(z)
    raised = None
    try:
        do()
    except Exception as ex:
        raised = ex
    ctx.tag("refused" if raised is not None else "done")
    after = bags.snapshot(z)
    bad = []
    for d in bags.snapdiff(before, after):
        k = d.split(": ")[0]
        if any(k == a or k.startswith(a + "/") for a in allowed):
            continue
        # the directory that holds the destination may get a new entry (its time changes)
        if any(k == os.path.dirname(a) for a in allowed) and before.get(k) and after.get(k) and before[k][:2] == after[k][:2]:
            continue
        bad.append(d)
    require(not bad, "%s with %r in %s (%s) changed files outside of its destination: %s", kind, paths, where, case["dest"], bad[:3])
    for t in log:
        t = os.path.realpath(t)
        require(t.startswith(os.path.realpath(os.path.join(z, allowed[0])) + os.sep),
                "the fetcher was told to write to %s, outside of the destination", t)
    if kind == "split":
        # nothing from outside came in
        f, _ = bags.tree(os.path.join(p, "out"))
        require(not any(b.startswith(b"do not touch") for b in f.values()), "the split bags hold a file from outside of the source bag: %r",
                [k for k, b in f.items() if b.startswith(b"do not touch")])
    elif kind == "restore" and os.path.isdir(os.path.join(z, allowed[0])) and case["link"] == "none" and where != "member":
        f, _ = bags.tree(os.path.join(z, allowed[0]))
        require(not any(b.startswith(b"do not touch") for b in f.values()), "the restored bag holds a file from outside of its member bags")
