"""histories that mix converting, splitting, amending, deleting, serializing and restoring"""
import os, shutil
from hypothesis import strategies as st
from .. import bags, gens
from ..engine import fail, require

ID, LEVEL = "C25", "exploration"
CASES = {"quick": 450, "thorough": 16000}
RULE = ("case = a plain bag, then 2-7 operations, each continuing with the result of the one before: convert to a single-bag aggregation, split "
        "(either splitter, or a plan by hand with hard links or from a serialized bag), amend by a head bag and 0-2 others, mark files as "
        "deleted, serialize a member or the head, restore into a new bag or in place and go on with that; non-trivial: 3 or more operations "
        "of 2 or more kinds were carried out, an amendment or deletion after a conversion or split among them, or the other way around; "
        "distinct by case hash")
SERS = [".zip", ".tar", ".tar.gz", ".tar.bz2", ".tgz"]


@st.composite
def somebag(draw, name, pool, i):
    fl = [[p, draw(st.one_of(gens.size, st.just(11))), 100 * draw(st.integers(0, 2)) + i] for p in pool if draw(st.integers(0, 2)) > 0]
    algs = draw(st.sampled_from([["sha256"], ["md5"], ["md5", "sha256"]]))
    return {"name": name, "files": fl, "dirs": [], "algs": algs, "tagalgs": draw(st.sampled_from([algs, []])), "version": "0.97",
            "sep": "  ", "partial": False, "oxum": draw(st.booleans()), "info": draw(gens.baginfo(3)), "fetch": []}


@st.composite
def strategy(draw):
    case = {"base": draw(gens.bag(name="base", max_files=8, big=False)), "ops": []}
    paths, _ = draw(gens.paths(1, 4, True))
    own = [f[0] for f in case["base"]["files"]]
    pool = gens.resolve(own + case["base"]["dirs"] + [p for p in paths if p.split("/")[0] != "multibag"])
    pool = [p for p in pool if p not in case["base"]["dirs"]] or ["data/a"]
    kinds = ["split", "split", "amend", "amend", "amend", "delete", "delete", "ser", "ser", "restore", "inplace"]
    for i in range(draw(st.integers(3, 7))):
        # a plain bag can only be converted, split or amended
        plain = i == 0 or case["ops"][-1]["op"] in ("restore", "inplace")
        k = draw(st.sampled_from(["convert", "split", "split", "amend"] if plain else kinds))
        op = {"op": k}
        if k == "split":
            op["how"] = draw(st.sampled_from(["well", "near", "hand", "hand-bag"]))
            op["max"] = draw(st.one_of(st.integers(1, 60), st.integers(50, 900)))
            op["cut"] = draw(st.integers(1, 4))
        elif k == "amend":
            op["head"] = draw(somebag("h%d" % i, pool, 10 * i + 1))
            op["extras"] = [draw(somebag("e%d-%d" % (i, j), pool, 10 * i + 2 + j)) for j in range(draw(st.sampled_from([0, 0, 1, 2])))]
            op["form"] = draw(st.sampled_from(["path", "bag"]))
        elif k == "delete":
            op["paths"] = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=2, unique=True))
        elif k == "ser":
            op["which"] = draw(st.integers(0, 9))
            op["ext"] = draw(st.sampled_from(SERS))
        case["ops"].append(op)
    return case


class History(object):
    """the collection as a user knows it, and the bags that make it up"""
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.dir = ctx.dirpath("store")
        os.mkdir(self.dir)
        self.cur = bags.write_bag(self.dir, case["base"])      # the plain bag, or the latest head bag
        self.files = bags.spec_files(case["base"])             # what the collection holds now
        self.head = False
        self.members, self.deleted, self.held = [], set(), {"base": dict(self.files)}
        self.heads = {}                                        # name -> (path, what that version holds)
        self.n = 0
        self.ver = None
        self.done = []

    def name(self):
        b = os.path.basename(self.cur)
        if os.path.isdir(self.cur):
            return b
        for e in SERS:
            if b.endswith(e):
                return b[:-len(e)]

    def newver(self):
        self.n += 1
        self.ver = "%d.0" % self.n
        return self.ver

    def plain(self, path):
        self.cur, self.head, self.members, self.deleted = path, False, [], set()
        self.held[self.name()] = dict(self.files)

    # ---- operations: False if it does not apply now
    def convert(self, op):
        import multibag
        if self.head:
            return False
        multibag.make_single_multibag(self.cur, self.newver())
        self.head, self.members = True, [self.name()]

    def split(self, op):
        import multibag
        from multibag.split import SplitPlan
        from multibag.access.bagit import Bag
        base = "s%d" % len(self.done)
        isdir = os.path.isdir(self.cur)
        if op["how"] in ("well", "near") and isdir:
            cls = multibag.WellPackedSplitter if op["how"] == "well" else multibag.NeighborlySplitter
            plan = cls(op["max"]).plan(self.cur, base)
        else:
            plan = SplitPlan(Bag(self.cur) if op["how"] == "hand-bag" and isdir else self.cur)
            todo = sorted(plan.required())
            for g in range(op["cut"]):
                part = [p for i, p in enumerate(todo) if i % (op["cut"] + 1) == g]
                if part:
                    plan._manifests.append({"contents": part, "totalsize": 0})
            plan.complete_plan()
            plan.name_output_bags(multibag.split.SimpleNamer(base))
        plan.head_version = self.newver()
        outs = list(plan.apply_iter(self.dir))
        require(outs, "the split wrote no bag")
        for o in outs:
            self.held[os.path.basename(o)] = {p: b for p, b in bags.nonspecial(bags.tree(o)[0]).items()
                                              if not p.startswith("multibag/")}
        if not self.head:
            self.remove(self.cur)         # the source is not needed any more
        self.cur, self.head = outs[-1], True
        self.members = self.members + [os.path.basename(o) for o in outs]

    def amend(self, op):
        from multibag.amend import amend_bag_with
        from multibag.access.bagit import open_bag
        new = bags.write_bag(self.dir, op["head"])
        extras = [bags.write_bag(self.dir, e) for e in op["extras"]]
        old = open_bag(self.cur) if op["form"] == "bag" else self.cur
        amend_bag_with(old, new, self.newver(), *extras)
        self.members = (self.members if self.head else [self.name()]) + [e["name"] for e in op["extras"]] + [op["head"]["name"]]
        for spec in op["extras"] + [op["head"]]:
            f = bags.spec_files(spec)
            self.held[spec["name"]] = f
            self.files.update(f)
            self.deleted -= set(f)
        self.cur, self.head = new, True

    def delete(self, op):
        from multibag.access.multibag import open_headbag
        if not self.head or not os.path.isdir(self.cur):
            return False
        hb = open_headbag(self.cur)
        for p in op["paths"]:
            hb.set_deleted(p)
            self.files.pop(p, None)
            self.deleted.add(p)
        hb.save_deleted()
        hb.save()

    def ser(self, op):
        ms = [m for m in (self.members or [self.name()]) if os.path.isdir(os.path.join(self.dir, m))]
        if not ms:
            return False
        m = os.path.join(self.dir, ms[op["which"] % len(ms)])
        if m == self.cur and not self.head:
            return False
        ar = bags.serialize(m, m, op["ext"])
        shutil.rmtree(m)
        self.heads = {n: (ar if p == m else p, f) for n, (p, f) in self.heads.items()}
        if m == self.cur:
            self.cur = ar

    def restore(self, op):
        import multibag
        if not self.head:
            return False
        dest = os.path.join(self.dir, "r%d" % len(self.done))
        multibag.restore_bag(self.cur, dest)
        self.plain(dest)

    def inplace(self, op):
        import multibag
        if not self.head or not os.path.isdir(self.cur):
            return False
        self.heads.pop(self.name(), None)
        multibag.restore_bag(self.cur)
        # (the other heads name this bag only if they are newer, and there are none)
        self.plain(self.cur)

    def remove(self, path):
        shutil.rmtree(path) if os.path.isdir(path) else os.remove(path)

    # ---- what must hold after each
    def verify(self, where):
        from multibag.access.multibag import open_headbag
        from multibag.validate import HeadBagValidator
        from multibag.validate.base import ERROR
        if not self.head:
            self.same(self.cur, self.files, where)
            return
        hb = open_headbag(self.cur, True)
        require(hb.head_version == self.ver, "%s: the head version is %r, expected %r", where, hb.head_version, self.ver)
        require(hb.member_bag_names == self.members, "%s: the members are %r, expected %r", where, hb.member_bag_names, self.members)
        require(set(hb.deleted_paths()) == self.deleted, "%s: the deleted paths are %r, expected %r", where, sorted(hb.deleted_paths()),
                sorted(self.deleted))
        for p in sorted(self.files):
            if p.startswith("data/"):
                last = [m for m in self.members if p in self.held[m]][-1:]
                require([hb.lookup_file(p)] == last, "%s: %r is looked up in %r, expected %r", where, p, hb.lookup_file(p), last)
        bad = HeadBagValidator(self.cur).validate(ERROR).failed(ERROR)
        require(not bad, "%s: the head bag fails validation: %s", where, bad and bad[0].description)
        self.heads[self.name()] = (self.cur, dict(self.files))

    def restored(self, head, files, dest, where):
        import multibag
        multibag.restore_bag(head, dest)
        self.same(dest, files, where)
        shutil.rmtree(dest)

    def same(self, path, want, where):
        f, d = bags.tree(path)
        got = bags.nonspecial(f)
        for p in sorted(set(want) - set(got)):
            fail("%s: %r is missing", where, p)
        for p in sorted(set(got) - set(want)):
            fail("%s: there is %r, which does not belong there", where, p)
        for p in sorted(want):
            require(got[p] == want[p], "%s: the content of %r is not that of this version", where, p)
        probs = bags.bag_problems(files=f, dirs=d)
        require(not probs, "%s: not a valid bag: %s", where, probs[:3])


def check(case, ctx):
    h = History(case, ctx)
    for i, op in enumerate(case["ops"]):
        if getattr(h, op["op"])(op) is False:
            continue
        h.done.append(op["op"])
        where = "after " + ", ".join(h.done)
        h.verify(where)
        if h.head:
            h.restored(h.cur, h.files, ctx.dirpath("rest%d" % i), where + ", restored")
    done = h.done
    ctx.tag(*["op:" + o for o in done])
    ctx.tag(*["%s then %s" % x for x in zip(done, done[1:])])
    edits, makes = [i for i, o in enumerate(done) if o in ("amend", "delete")], [i for i, o in enumerate(done) if o in ("convert", "split")]
    ctx.nontrivial(len(done) > 2 and len(set(done)) > 1 and edits and makes)
    if len(h.heads) > 1:
        ctx.tag("older heads")
    for name in sorted(h.heads):
        head, files = h.heads[name]
        h.restored(head, files, ctx.dirpath("old-" + name), "after %s, the version of head bag %r restored" % (", ".join(done), name))
