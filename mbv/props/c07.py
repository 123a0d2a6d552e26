"""all routes of restoring"""
import os, shutil
from hypothesis import strategies as st
from .. import bags, aggr
from ..engine import fail, require

ID, LEVEL = "C07", "exploration"
CASES = {"quick": 3600, "thorough": 90000}
RULE = ("case = generated aggregation x route (new directory, in place, existing partial destination, members in another "
        "directory, fetcher with and without cache directory, serialized members and head, path or object arguments) x an optional "
        "missing member; non-trivial: 2 or more members and a route other than the plain one; distinct by case hash")
EXTS = ["", "", ".zip", ".tar", ".tar.gz", ".tar.bz2", ".tgz"]


@st.composite
def strategy(draw):
    case = draw(aggr.aggregation(max_members=4, max_files=6))
    n = len(case["members"])
    case["dest"] = draw(st.sampled_from(["new", "new", "inplace", "inplace-named", "copy", "partial"]))
    case["comp"] = draw(st.sampled_from(["same", "other", "fetch", "fetch-cache", "fetch-some"]))
    case["ser"] = [draw(st.sampled_from(EXTS)) for _ in range(n)]
    case["headser"] = draw(st.sampled_from(EXTS))
    case["direntries"] = draw(st.booleans())
    case["headobj"] = draw(st.sampled_from(["path", "path", "object", "ro"]))
    case["destobj"] = draw(st.booleans())
    case["npre"] = draw(st.integers(0, n - 1))
    case["opts"] = draw(st.sampled_from([None, None, None, "keeptags", "nosizes", "manual"]))
    case["emptyanswer"] = draw(st.booleans())
    case["missing"] = draw(st.integers(0, n - 2)) if n > 1 and draw(st.integers(0, 4)) == 0 else None
    return case


def check(case, ctx):
    from multibag.restore import BagRestorer, restore_bag
    from multibag.access.bagit import Bag, ReadOnlyBag, open_bag
    from multibag.access.multibag import open_headbag
    a = ctx.dirpath("a")
    paths = aggr.write(case, a)
    aggr.tags(case, ctx)
    n = len(paths)
    comp = case["comp"]
    ctx.tag("dest:" + case["dest"], "comp:" + comp)
    ctx.nontrivial(n > 1 and (case["dest"], comp) != ("new", "same"))
    other = ctx.dirpath("other")
    os.mkdir(other)
    head = paths[-1]
    names = [os.path.basename(p) for p in paths]
    inplace = case["dest"].startswith("inplace")
    missing = case["missing"]

    dest = None
    if case["dest"] == "new":
        dest = ctx.dirpath("restored")
    elif case["dest"] == "inplace-named":
        dest = head
    elif case["dest"] in ("copy", "partial"):
        dest = ctx.dirpath("part")
        shutil.copytree(head, dest)
        if case["dest"] == "partial":
            r = BagRestorer(head, dest)
            for nm in list(reversed(names[:-1]))[:case["npre"]]:
                r.restore_member(nm, r.head_bag.deleted_paths())

    # put the members where the route wants them
    log = []
    where = {"same": a, "other": other, "fetch": other, "fetch-cache": other, "fetch-some": other}[comp]
    for i, p in enumerate(paths[:-1]):
        ext = case["ser"][i]
        tgt = a if comp == "fetch-some" and i % 2 else where
        if i == missing:
            shutil.move(p, ctx.dirpath("away"))
            continue
        if ext:
            bags.serialize(p, os.path.join(tgt, names[i]), ext, case["direntries"])
            shutil.rmtree(p)
            ctx.tag("serialized member")
        elif tgt != a:
            shutil.move(p, os.path.join(tgt, names[i]))

    headarg = head
    if case["headser"] and not inplace and case["dest"] != "copy":
        headarg = bags.serialize(head, head, case["headser"], case["direntries"])
        shutil.rmtree(head)
        ctx.tag("serialized head")
    if case["headobj"] == "object":
        headarg = open_headbag(headarg)
    elif case["headobj"] == "ro" and not inplace:
        headarg = open_headbag(headarg, readonly=True)

    kw = {}
    if comp == "other":
        kw["compdir"] = other
    if comp.startswith("fetch"):
        cache = None
        if comp == "fetch-cache":
            cache = ctx.dirpath("cache")
            os.mkdir(cache)
            kw["compdir"] = cache
        elif comp == "fetch-some":
            kw["compdir"] = cache = a

        def fetcher(name, todir):
            avail = os.path.isdir(os.path.join(todir, name)) or \
                any(os.path.exists(os.path.join(todir, name + e)) for e in bags.SERS)
            log.append((name, todir, avail, os.path.isdir(todir)))
            for e in [""] + bags.SERS:
                src = os.path.join(other, name + e)
                if os.path.exists(src):
                    t = os.path.join(todir, name + e)
                    (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, t)
                    return t
            return "" if case.get("emptyanswer") else None
        kw["fetcher"] = fetcher

    destarg = dest
    if dest and case["destobj"] and os.path.isdir(dest):
        destarg = Bag(dest)
        ctx.tag("destination as object")
    real = dest or head
    part = case["dest"] in ("copy", "partial")
    if missing is not None:
        ctx.tag("missing member")
        for what, call in (("restore_bag()", lambda: restore_bag(headarg, destarg, **kw)),
                           ("restore_member()", lambda: BagRestorer(headarg, destarg, **kw).restore_member(names[missing])),
                           ("restore_fetch()", lambda: BagRestorer(headarg, destarg, **kw).restore_fetch())):
            try:
                call()
            except Exception:
                continue
            fail("member %r is not available, but %s returned normally", names[missing], what)
        require(not find(names[missing], BagRestorer(headarg, destarg, **kw)), "found the missing member %r", names[missing])
        if comp.startswith("fetch"):
            return
        # once the member is there, the restoring can be repeated
        ctx.tag("repeated with the member")
        shutil.move(ctx.dirpath("away"), os.path.join(where, names[missing]))
        if not isinstance(headarg, str):
            headarg = open_headbag(headarg.path, readonly=case["headobj"] == "ro" and not inplace)
        part = True
    r = BagRestorer(headarg, destarg, **kw)
    require(os.path.realpath(r.destination_bagdir) == os.path.realpath(real), "destination is %r, not %r", r.destination_bagdir, real)
    opts = case.get("opts") if missing is None else None
    if opts == "manual":
        if case["dest"] == "new" and comp != "fetch":
            # combined one by one in the order of the profile, later members replacing what is there
            ctx.tag("one by one")
            skip = r.head_bag.deleted_paths()
            hp = r.head_bag.path
            own = BagRestorer(hp, destarg, compdir=os.path.dirname(hp))
            if case["destobj"]:
                for nm in names[:-1]:
                    r.restore_member(nm, skip, overwrite=True)
                own.restore_member(r.head_bag.name, skip, overwrite=True)
            else:
                ctx.tag("one by one, last first")
                fetch = {}
                own.restore_member(r.head_bag.name, skip)
                for nm in reversed(names[:-1]):
                    r.restore_member(nm, skip, fetch)
                want = {}
                for m in case["members"][:-1]:
                    want.update((f[2], "%s %s %s" % tuple(f)) for f in m["fetch"])
                got = {p: l.strip() for p, l in fetch.items()}
                require(got == want, "the fetch lines collected from the members are %r, expected %r", got, want)
            r.restore_fetch()
            manual(case, real)
            return
        opts = None
    if opts:
        ctx.tag(opts)
    if opts == "keeptags":
        r.restore(remove_multibag_tags=False)
        kept(case, real, comp)
        return
    if opts == "nosizes":
        r.restore(update_sizes=False)
        got = bags.nonspecial(bags.tree(real)[0])
        require(got == aggr.model(case)[0], "bag restored with update_sizes=False has other files: %s", diff(got, aggr.model(case)[0]))
        return
    r.restore()
    aggr.verify(case, real, "bag restored with dest=%s, members=%s" % (case["dest"], comp), info=not part or case["agginfo"] is not None)
    for nm, todir, avail, isdir in log:
        require(nm in names[:-1], "the fetcher was called for %r, which is not one of the members %r", nm, names[:-1])
        require(not avail, "the fetcher was called for %r, which was already available", nm)
        require(isdir, "the fetcher was given a cache directory that does not exist: %r", todir)
        require(os.path.abspath(todir) == os.path.abspath(r.cache_dir), "the fetcher was given %r, the cache directory is %r",
                todir, r.cache_dir)
        require(comp != "fetch-cache" or todir == kw["compdir"], "cache directory %r was not used, but %r", kw.get("compdir"), todir)
    if comp == "fetch-cache" or comp == "fetch":
        require(set(x[0] for x in log) == set(names[:-1]), "the fetcher was called for %r, the missing members are %r",
                sorted(set(x[0] for x in log)), names[:-1])


def find(name, r):
    return r.find_member_bag(name) or r.get_member_bag(name)


def diff(a, b):
    return sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))[:4]


def kept(case, dest, comp):
    """restored without removing the multibag tags: everything else must be the same, and the tags those of the head bag"""
    f, d = bags.tree(dest)
    td = (case["tagdir"] or "multibag") + "/"
    got = bags.nonspecial(f)
    want = aggr.model(case)[0]
    rest = {p: b for p, b in got.items() if not p.startswith(td)}
    require(rest == want, "bag restored with remove_multibag_tags=False has other files: %s", diff(rest, want))
    for p, b in aggr.head_files(case).items():
        require(got.get(p) == b, "bag restored with remove_multibag_tags=False has not the head bag's %s", p)
    if case["agginfo"] is None:
        inf = bags.info_dict(bags.parse_info(f["bag-info.txt"]))
        require("Multibag-Version" in inf and "Multibag-Head-Version" in inf,
                "bag restored with remove_multibag_tags=False lacks the multibag tags: %r", inf)


def manual(case, dest):
    f, d = bags.tree(dest)
    td = (case["tagdir"] or "multibag") + "/"
    got = {p: b for p, b in bags.nonspecial(f).items() if not p.startswith(td)}
    want = aggr.model(case)[0]
    require(got == want, "members combined one by one, with overwrite=True, give other files: %s", diff(got, want))
    probs = [x for x in bags.bag_problems(files=f, dirs=d) if "Oxum" not in x]
    require(not probs, "members combined one by one, with overwrite=True, give an invalid bag: %s", probs[:3])
