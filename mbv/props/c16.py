"""inputs are never modified"""
import os, copy
from hypothesis import strategies as st
from .. import bags, gens, aggr, headgen, splitting
from ..engine import fail, require
from . import c04, c08

ID, LEVEL = "C16", "exploration"
CASES = {"quick": 1500, "thorough": 45000}
RULE = ("case = a split (any form of source, head bag sources included), a restore, an amendment chain or a round of inspection, followed by "
        "0-4 modifications of the results through the library (convert, save, edit and rename tag directory, restore in place, amend, "
        "split again); every input bag is compared with a snapshot (paths, types, bytes, modes, mtimes) after every step, in-memory "
        "inputs with a copy of their tags; non-trivial: an output exists that shares files with an input and is modified, or 2 or more "
        "input bags; distinct by case hash")
MODS = ["convert", "save", "edit", "tagdir", "inplace", "amend", "resplit", "oxum", "validate", "replicate"]


@st.composite
def strategy(draw):
    kind = draw(st.sampled_from(["split", "split", "split", "restore", "amend", "inspect"]))
    case = {"kind": kind, "mods": [[draw(st.sampled_from(MODS)), draw(st.integers(0, 3))] for _ in range(draw(st.integers(0, 4)))],
            "abort": draw(st.sampled_from([None, None, None, 0, 1]))}
    if kind == "split":
        c = draw(c04.strategy())
        if draw(st.integers(0, 3)) == 0:
            c["forhead"] = [[i, False] for i in range(len(c["bag"]["files"]))][:2]
        case["c"] = c
    elif kind == "restore":
        c = draw(aggr.aggregation(max_members=3, max_files=5))
        c["ser"] = [draw(st.sampled_from(["", "", ".zip", ".tar", ".tgz"])) for _ in c["members"]]
        c["arg"] = draw(st.sampled_from(["path", "object", "ro"]))
        case["c"] = c
    elif kind == "amend":
        case["c"] = draw(c08.strategy())
    else:
        case["c"] = {"bag": draw(gens.bag(max_files=6)), "head": draw(st.one_of(st.none(), headgen.head("bag")))}
        case["c"]["bag"]["name"] = "bag"
        case["c"]["ext"] = draw(st.sampled_from(bags.SERS))
    return case


class Watch(object):
    def __init__(self):
        self.snaps, self.objs = [], []

    def add(self, path, what):
        self.snaps.append((path, what, bags.snapshot(path)))

    def obj(self, b, what):
        self.objs.append((b, what, copy.deepcopy(dict(b.info)), copy.deepcopy(dict(b.entries))))
        return b

    def look(self, doing):
        for path, what, snap in self.snaps:
            require(os.path.exists(path), "%s removed %s", doing, what)
            diff = bags.snapdiff(snap, bags.snapshot(path))
            require(not diff, "%s changed %s: %s", doing, what, diff[:3])
        for b, what, info, ent in self.objs:
            require(dict(b.info) == info, "%s changed the tags of %s in memory: %r -> %r", doing, what, info, dict(b.info))
            require(dict(b.entries) == ent, "%s changed the entries of %s in memory", doing, what)


def modify(kind, bd, others, head, i, ctx):
    """change an output bag through the library; its outcome does not matter here, except that it may not raise
    something the library does not use for refusing.  returns False if not applicable"""
    import multibag
    from multibag.access.multibag import HeadBag, open_headbag, is_headbag
    from multibag.access.bagit import Bag, open_bag
    from multibag.access.extended import ExtendedReadWritableBag, as_extended
    ctx.n_mod = getattr(ctx, "n_mod", 0) + 1
    if kind == "convert":
        multibag.make_single_multibag(bd, "7", "doi:1/2")
    elif kind == "save":
        b = Bag(bd)
        b.info["X-Changed"] = "yes"
        b.save(manifests=True)
    elif kind == "edit":
        hb = HeadBag(bd)
        hb.add_member_bag("another")
        hb.add_file_lookup("data/else", "another")
        hb.set_deleted("data/else2")
        hb.save_member_bags()
        hb.save_file_lookup()
        hb.save_deleted()
        hb.update_info("8")
        hb.save(manifests=True)
    elif kind == "tagdir":
        hb = HeadBag(bd)
        if not hb.isdir(hb.multibag_tag_dir) or hb.exists("mb_new"):
            return False
        hb.set_multibag_tag_dir("mb_new", True)
        hb.save()
    elif kind == "inplace":
        if not is_headbag(bd) or not head:
            return False
        multibag.restore_bag(bd)
    elif kind == "amend":
        o = [x for x in others if x != bd]
        if not o:
            return False
        multibag.amend_bag_with(o[i % len(o)], bd, "9")
    elif kind == "resplit":
        if not os.path.isfile(os.path.join(bd, "bag-info.txt")):
            return False
        d = ctx.dirpath("re%d" % ctx.n_mod)
        os.mkdir(d)
        multibag.WellPackedSplitter(40).split(bd, d, "re%d" % ctx.n_mod)
    elif kind == "oxum":
        b = ExtendedReadWritableBag(bd)
        b.update_oxum()
        b.update_bag_size()
        b.save()
    elif kind == "validate":
        multibag.validate.HeadBagValidator(bd).validate(7)
        multibag.validate.MemberBagValidator(bd).validate(7)
    elif kind == "replicate":
        d = ctx.dirpath("rep%d" % ctx.n_mod)
        os.mkdir(d)
        b = as_extended(Bag(bd)) if i % 2 else open_bag(bd)
        if i % 2:
            b.replicate_with_hardlink = True
        b = as_extended(b)
        for p in b.nonstandard():
            b.replicate(p, d)
    return True


def mods(case, ctx, w, outs, head=True):
    done = 0
    for kind, i in case["mods"]:
        if not outs:
            break
        bd = outs[-1] if kind in ("inplace", "edit", "tagdir") and i % 2 == 0 else outs[i % len(outs)]
        if not os.path.isdir(bd):
            continue
        try:
            ok = modify(kind, bd, outs, head, i, ctx)
        except Exception as ex:
            # an operation may refuse (e.g. a restored bag is no head bag any more); what counts is that nothing else was changed
            ctx.tag("refused " + kind)
            ok = True
        if ok:
            done += 1
            ctx.tag("then " + kind)
            w.look("%s of %s" % (kind, os.path.basename(bd)))
    return done


def check(case, ctx):
    w = Watch()
    ctx.tag("kind:" + case["kind"])
    {"split": split, "restore": restore, "amend": amend, "inspect": inspect}[case["kind"]](case, ctx, w)


def split(case, ctx, w):
    import multibag
    from multibag.access.bagit import Bag, ReadOnlyBag
    c = case["c"]
    h = c.get("head")
    os.makedirs(ctx.dirpath("src")), os.makedirs(ctx.dirpath("out"))
    srcdir = bags.write_bag(ctx.dirpath("src"), c["bag"], headgen.extra(h) if h else None)
    if c["kind"] == "single":
        multibag.make_single_multibag(srcdir, "1.5")
    w.add(srcdir, "the source bag")
    plan = splitting.make_plan(c, ctx, srcdir)
    for f in os.listdir(ctx.dirpath("src")):
        if os.path.isfile(ctx.dirpath("src", f)):
            w.add(ctx.dirpath("src", f), "the serialized source bag")
    w.obj(plan.progenitor, "the source bag")
    w.look("planning the split")
    outs = []
    for k, bd in enumerate(plan.apply_iter(ctx.dirpath("out"))):
        outs.append(bd)
        w.look("writing %s" % os.path.basename(bd))
        if case["abort"] == k:
            # split() may be abandoned half way
            ctx.tag("abandoned split")
            break
    ctx.tag("source:" + c["kind"], "form:" + c["form"])
    w.look("the split")
    n = mods(case, ctx, w, outs)
    ctx.nontrivial(n > 0)
    if os.path.isdir(srcdir) and case["abort"] is None:
        dest = ctx.dirpath("restored")
        try:
            multibag.restore_bag(outs[-1], dest)
        except Exception:
            return
        w.look("restoring")
        mods(dict(case, mods=[["save", 0], ["convert", 0]]), ctx, w, [dest], False)


def restore(case, ctx, w):
    import multibag, shutil
    from multibag.access.multibag import open_headbag
    c = case["c"]
    paths = aggr.write(c, ctx.dirpath("a"))
    for i, p in enumerate(paths):
        ext = c["ser"][i]
        if ext and (i < len(paths) - 1 or c["arg"] != "object"):
            z = bags.serialize(p, p, ext)
            shutil.rmtree(p)
            paths[i] = z
        w.add(paths[i], "member bag %s" % os.path.basename(paths[i]))
    w.add(ctx.dirpath("a"), "the directory of the members")
    head = paths[-1]
    if c["arg"] != "path":
        head = w.obj(open_headbag(head, readonly=c["arg"] == "ro"), "the head bag")
    dest = ctx.dirpath("dest")
    multibag.restore_bag(head, dest)
    w.look("restoring")
    ctx.nontrivial(len(paths) > 1)
    mods(case, ctx, w, [dest], False)


def amend(case, ctx, w):
    from multibag.amend import amend_bag_with, Amender
    c = case["c"]
    a, ser = ctx.dirpath("a"), ctx.dirpath("ser")
    os.mkdir(a)
    os.mkdir(ser)
    base = c["base"]
    for m in base["members"]:
        m["info"] = m["info"] or []
    cur = bags.write_bag(a, base["members"][0]) if c["plain"] else c08.write_base(c, a)
    for f in sorted(os.listdir(a)):
        w.add(os.path.join(a, f), "the amended bag %s" % f if os.path.join(a, f) == cur else "member %s" % f)
    heads = []
    for i, s in enumerate(c["steps"]):
        newhead = bags.write_bag(a, s["head"])
        eb = [bags.write_bag(a, e) for e in s["extras"]]
        for e in eb:
            w.add(e, "the additional amending bag %s" % os.path.basename(e))
        am = c08.amendee_arg(cur, s["form"], ser)
        ea = [c08.amendee_arg(e, s["eform"], ser) for e in eb]
        for x in [am] + ea:
            if not isinstance(x, str):
                w.obj(x, "the bag object given as input, %s" % x)
        for f in os.listdir(ser):
            w.add(os.path.join(ser, f), "the serialized bag %s" % f)
        if s["api"]:
            amr = Amender(am, newhead, s["pid"], s["comment"], s["colinfo"])
            amr.init_from_amendee()
            w.look("starting amendment %d" % (i + 1))
            for e in ea:
                amr.add_amending_bag(e)
                w.look("adding an amending bag")
            amr.finalize(s["version"])
        else:
            amend_bag_with(am, newhead, s["version"], *ea)
        w.look("amendment %d" % (i + 1))
        heads.append(newhead)
        cur = newhead
        if i + 1 < len(c["steps"]):
            # from now on this head bag is an input
            w.add(newhead, "the amended head bag %s" % os.path.basename(newhead))
    ctx.nontrivial(True)
    # the last head bag is the output
    mods(case, ctx, w, [cur], True)


def inspect(case, ctx, w):
    import multibag
    from multibag.access.bagit import open_bag, Bag, ReadOnlyBag
    from multibag.access.multibag import open_headbag, HeadBag, is_headbag, as_headbag
    from multibag.access.extended import as_extended, ExtendedReadWritableBag
    from multibag.validate import HeadBagValidator, MemberBagValidator, BagValidator
    c = case["c"]
    spec, h = dict(c["bag"]), c["head"]
    if h:
        spec["info"] = (spec["info"] or []) + headgen.info(h)
    bd = bags.write_bag(ctx.dirpath("i"), spec, headgen.extra(h) if h else None)
    z = bags.serialize(bd, ctx.dirpath("i", "z"), c["ext"])
    w.add(bd, "the inspected bag")
    w.add(z, "the inspected serialized bag")
    w.add(ctx.dirpath("i"), "the directory of the inspected bag")
    hb = None
    for loc in (bd, z):
        for cls in (HeadBagValidator, MemberBagValidator, BagValidator):
            cls(loc).validate(7)
        w.look("validating")
        objs = [as_extended(open_bag(loc))]
        if loc == bd:
            objs += [as_extended(Bag(bd)), ExtendedReadWritableBag(bd)]
        if h:
            objs += [open_headbag(loc), open_headbag(loc, readonly=True)]
        for b in objs:
            w.obj(b, "an open bag")
            for p in list(b.nonstandard()) + ["bagit.txt", "data", "nosuch"]:
                b.exists(p), b.isfile(p), b.isdir(p)
                if b.exists(p):
                    b.timesfor(p)
                if b.isfile(p):
                    b.sizeof(p)
            list(b.walk())
            list(b.walk("data"))
            list(b.payload_files()), list(b.payload_entries()), b.is_valid(), b.has_oxum(), list(b.files_to_be_fetched())
            b.name, b.is_head_multibag(), str(b)
            if hasattr(b, "calc_oxum"):
                b.calc_oxum(), b.calc_bag_size()
            if h:
                hb = open_headbag(loc)
                hb.member_bags(), hb.deleted_paths(), hb.lookup_file("data/a"), hb.member_bag_names, hb.files_in_member("bag")
                hb.head_version, hb.profile_version, hb.multibag_tag_dir
            w.look("inspecting (%s)" % type(b).__name__)
        # registering a bag in a head bag only reads it
        other = ctx.dirpath("o%d" % (loc == z))
        x = HeadBag(bags.write_bag(other, {"name": "hd", "files": [], "dirs": [], "algs": ["md5"], "tagalgs": [], "version": "0.97",
                                           "info": [], "oxum": False}))
        x.add_member_bag("bag")
        x.update_for_member(open_bag(loc))
        x.save_member_bags(), x.save_file_lookup(), x.update_info("1"), x.save()
        w.look("registering")
        multibag.WellPackedSplitter(50).plan(bd)
        multibag.NeighborlySplitter(50).plan(bd)
        w.look("planning a split")
    ctx.nontrivial(bool(spec["files"]))
