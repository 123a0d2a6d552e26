"""head bag editing histories against lists and maps"""
import os
from hypothesis import strategies as st
from .. import bags, gens, headgen
from ..engine import fail, require
from .c09 import select, ancestors

ID, LEVEL = "C10", "exploration"
CASES = {"quick": 1800, "thorough": 60000}
RULE = ("case = a plain or head bag, up to 3 other bags, and a history of 1-16 operations on the open head bag (add, override, replace and "
        "remove members; add, remove and clear lookups; mark and unmark deleted; register bags with include/exclude; rename the tag "
        "directory; partial and full saves; re-reads; reopening; refused calls), state compared after every step; non-trivial: 5 or more "
        "operations of 3 or more kinds; distinct by case hash")

NAMES = ["m1", "m2", "m 3", "b\u00e4g", "m1.x", "#m", "bag"]
FILES = ["data/a", "data/b c", "data/x/y", "data/\u00e9", "meta/z", "data/#a", "a"]
_txt = st.text(alphabet=st.characters(codec="utf-8", categories=("L", "N", "P", "S")), min_size=1, max_size=5).filter(lambda s: s[0] != "#")
URI = st.sampled_from([None, None, "doi:1/2", "http://a/b#c", "urn:x"])
COMM = st.sampled_from([None, None, "a comment", "has # in it", "tab\tin it", "#"])
INFO = st.one_of(st.just([]), st.just([]), st.lists(st.one_of(st.sampled_from(["1", "a b", "sha256=af"]), _txt), max_size=3))


@st.composite
def member(draw):
    return [draw(st.sampled_from(NAMES)), draw(URI), draw(COMM), draw(INFO)]


@st.composite
def opn(draw, nb, pools):
    k = draw(st.sampled_from(["addmem", "addmem", "addmem", "rmmem", "setmem", "addlu", "addlu", "addlu", "rmlu", "clearlu", "setdel",
                              "setdel", "unsetdel", "upd", "upd", "tagdir", "save1", "save", "reread", "reopen", "ask", "bad", "info"]))
    if k == "addmem":
        return [k, draw(member()), draw(st.sampled_from([True, True, False])), draw(st.booleans())]
    if k == "rmmem":
        return [k, draw(st.sampled_from(NAMES))]
    if k == "setmem":
        return [k, draw(st.lists(member(), max_size=3))]
    if k == "addlu":
        return [k, draw(st.sampled_from(FILES)), draw(st.sampled_from(NAMES))]
    if k in ("rmlu", "setdel", "unsetdel"):
        return [k, draw(st.sampled_from(FILES))]
    if k == "upd" and nb:
        b = draw(st.integers(0, nb - 1))
        pool = pools[b]
        one = st.sampled_from(pool)
        like = st.sampled_from(gens.lookalikes(pool) or pool)
        return [k, b, draw(st.one_of(st.none(), one, st.lists(one, max_size=3))),
                draw(st.one_of(st.none(), one, like, st.lists(st.one_of(one, like), max_size=2))),
                draw(st.booleans()), draw(st.sampled_from([None, None, "m2"])), draw(st.sampled_from(["dir", "bag", "ro", ".zip", ".tar.gz"]))]
    if k == "tagdir":
        return [k, draw(st.sampled_from(["multibag", "mb1", "mb2", "deep/er", "multibag2", "mb", "deep/er2"]))]
    if k == "save1":
        return [k, draw(st.sampled_from(["member_bags", "file_lookup", "deleted"]))]
    if k == "reread":
        return [k, draw(st.sampled_from(["member_bags", "lookup_file", "deleted_paths"]))]
    if k == "ask":
        return [k, draw(st.sampled_from(FILES)), draw(st.sampled_from(NAMES))]
    if k == "bad":
        return [k, draw(st.integers(0, 4))]
    if k == "reopen":
        return [k, draw(st.booleans()), draw(st.booleans())]
    if k == "info":
        return [k, draw(st.sampled_from([None, "3", "4.1"]))]
    return [k]


@st.composite
def strategy(draw):
    own = draw(gens.bag(max_files=3, tagfiles=False, info="yes", multi=False, big=False, comp=gens.plain_component))
    own["version"] = "0.97"
    others = []
    for i in range(draw(st.integers(0, 3))):
        b = draw(gens.bag(name="m%d" % (i + 1), max_files=6, info="yes", multi=False, big=False, comp=gens.component))
        others.append(b)
    head = draw(st.one_of(st.none(), headgen.head(own["name"])))
    pools = []
    for b in others:
        fs = [f[0] for f in b["files"]]
        pools.append(fs + sorted(set(a for f in fs for a in ancestors(f))) + ["data", "nosuch"])
    ops = draw(st.lists(opn(len(others), pools), min_size=draw(st.sampled_from([1, 6, 10])), max_size=18))
    return {"own": own, "others": others, "head": head, "ops": ops, "how": draw(st.booleans())}


class State(object):
    def __init__(self):
        self.members, self.lookup, self.deleted = [], [], set()

    def copy(self):
        s = State()
        s.members, s.lookup, s.deleted = [list(m) for m in self.members], [list(x) for x in self.lookup], set(self.deleted)
        return s

    def setlu(self, p, b):
        for x in self.lookup:
            if x[0] == p:
                x[1] = b
                return
        self.lookup.append([p, b])

    def remove(self, name):
        self.members = [m for m in self.members if m[0] != name]
        gone = [x[0] for x in self.lookup if x[1] == name]
        self.lookup = [x for x in self.lookup if x[1] != name]
        self.deleted -= set(gone)


def mem(ms):
    return [[m.name, m.uri, m.comment, list(m.info)] for m in ms]


def norm(ms):
    return [[m[0], m[1] or None, m[2] or None, list(m[3])] for m in ms]


def compare(hb, s, what):
    g = mem(hb.member_bags())
    require(norm(g) == norm(s.members), "%s: members are %r, expected %r", what, g, s.members)
    require(hb.member_bag_names == [m[0] for m in s.members], "%s: member_bag_names is %r, expected %r", what, hb.member_bag_names, s.members)
    lu = dict((x[0], x[1]) for x in s.lookup)
    for p in FILES + sorted(lu):
        require(hb.lookup_file(p) == lu.get(p), "%s: lookup_file(%r) is %r, expected %r", what, p, hb.lookup_file(p), lu.get(p))
    for n in NAMES + sorted(set(lu.values())):
        w = [x[0] for x in s.lookup if x[1] == n]
        g = hb.files_in_member(n)
        require(g == w, "%s: files_in_member(%r) is %r, expected %r", what, n, g, w)
        g.append("not given")
    hb.deleted_paths().append("not given")
    g = hb.deleted_paths()
    require(sorted(g) == sorted(s.deleted), "%s: deleted_paths is %r, expected %r", what, sorted(g), sorted(s.deleted))


def compare_ro(hb, s, what, missing):
    def get(f):
        try:
            return list(f())
        except missing:
            return []
    g = mem(get(hb.iter_member_bags))
    require(norm(g) == norm(s.members), "%s: members are %r, expected %r", what, g, s.members)
    g = [list(x) for x in get(hb.iter_file_lookup)]
    require(g == s.lookup, "%s: lookups are %r, expected %r", what, g, s.lookup)
    g = get(hb.iter_deleted)
    require(sorted(g) == sorted(s.deleted), "%s: deleted paths are %r, expected %r", what, sorted(g), sorted(s.deleted))
    if s.members:
        require(norm(mem(hb.member_bags())) == norm(s.members), "%s: member_bags() is %r, expected %r", what, mem(hb.member_bags()), s.members)
    if s.lookup:
        for p, b in s.lookup:
            require(hb.lookup_file(p) == b, "%s: lookup_file(%r) is %r, expected %r", what, p, hb.lookup_file(p), b)
        require(hb.lookup_file("data/not there") is None, "%s: lookup of an unknown path is %r", what, hb.lookup_file("data/not there"))
    require(sorted(hb.deleted_paths()) == sorted(s.deleted), "%s: deleted_paths() is %r", what, hb.deleted_paths())


def check(case, ctx):
    from multibag.access.multibag import HeadBag, open_headbag, MemberInfo, ReadOnlyHeadBag, as_headbag
    from multibag.access.exceptions import MissingMultibagFileError
    from multibag.access.bagit import Bag, open_bag
    spec = dict(case["own"])
    extra = None
    cur = State()
    if case["head"]:
        h = case["head"]
        extra = headgen.extra(h)
        spec["info"] = list(spec["info"]) + headgen.info(h)
        cur.members = [[m[0], m[1], m[2], []] for m in h["members"]]
        cur.lookup = [list(x) for x in h["lookup"]]
        cur.deleted = set(h["deleted"])
        ctx.tag("starts as head bag")
    bd = bags.write_bag(ctx.dirpath("t"), spec, extra)
    paths = [bags.write_bag(ctx.dirpath("o"), b) for b in case["others"]]
    saved = cur.copy()
    onfile = {"member_bags": bool(extra), "file_lookup": bool(extra)}
    hb = HeadBag(bd) if case["how"] else open_headbag(bd)
    kinds = set()
    dirty = False
    watch = []
    for n, op in enumerate(case["ops"]):
        k = op[0]
        what = "after operation %d %r" % (n + 1, op)
        kinds.add(k)
        if k == "addmem":
            m, override = op[1], op[2]
            if override and op[3]:
                cols = list(m[3])
                hb.add_member_bag(m[0], m[1], m[2], cols)
                cols.append("not given")
            else:
                hb.add_member_bag(m[0], uri=m[1], comment=m[2], info=list(m[3]) or None, override=override)
            if override:
                cur.remove(m[0])
            cur.members.append(list(m))
            dirty = True
        elif k == "rmmem":
            hb.remove_member_bag(op[1])
            cur.remove(op[1])
            dirty = True
        elif k == "setmem":
            given = [MemberInfo(m[0], m[1], m[2], *m[3]) for m in op[1]]
            hb.set_member_bags(given if n % 4 else tuple(given))
            given.append(MemberInfo("not given"))           # the caller's list remains the caller's
            watch.append((given, len(given)))
            cur.members = [list(m) for m in op[1]]
            dirty = True
        elif k == "addlu":
            hb.add_file_lookup(op[1], op[2])
            cur.setlu(op[1], op[2])
            dirty = True
        elif k == "rmlu":
            hb.remove_file_lookup(op[1])
            cur.lookup = [x for x in cur.lookup if x[0] != op[1]]
            dirty = True
        elif k == "clearlu":
            hb.clear_file_lookup()
            cur.lookup, saved.lookup = [], []
            onfile["file_lookup"] = False
            dirty = True
        elif k == "setdel":
            hb.set_deleted(op[1])
            cur.deleted.add(op[1])
            dirty = True
        elif k == "unsetdel":
            hb.unset_deleted(op[1])
            cur.deleted.discard(op[1])
            dirty = True
        elif k == "upd":
            if len(op) < 2:
                continue
            _, i, inc, exc, mk, name, form = op
            files = [f[0] for f in case["others"][i]["files"]]
            sure, maybe = select(files, inc, exc)
            if maybe - sure:
                continue
            p = paths[i]
            if form.startswith("."):
                p = bags.serialize(p, ctx.dirpath("o", os.path.basename(p)), form)
                b = open_bag(p)
            else:
                b = Bag(p) if form == "bag" else open_bag(p)
            hb.update_for_member(b, inc, exc, mk, name)
            nm = name or os.path.basename(paths[i])
            if mk:
                cur.remove(nm)
                cur.members.append([nm, None, None, []])
            had = set(x[0] for x in cur.lookup)
            got = [f for f in hb.files_in_member(nm) if f in sure and f not in had]
            require(set(got) == sure - had, "%s: registered %r, expected %r", what, sorted(got), sorted(sure - had))
            for f in sorted(sure & had) + got:
                cur.setlu(f, nm)
            dirty = True
        elif k == "tagdir":
            if op[1] != hb.multibag_tag_dir and os.path.exists(os.path.join(bd, op[1])):
                continue
            hb.set_multibag_tag_dir(op[1], True)
            hb.save()
            require(hb.multibag_tag_dir == op[1], "%s: the tag directory is %r", what, hb.multibag_tag_dir)
        elif k == "save1":
            if op[1] in onfile and norm_part(cur, op[1]):
                onfile[op[1]] = True
            getattr(hb, "save_" + op[1])()
            setpart(saved, cur, op[1])
        elif k == "save":
            saveall(hb)
            saved = cur.copy()
            dirty = False
        elif k == "reread":
            # re-reading drops what was not saved
            if op[1] == "deleted_paths":
                hb.deleted_paths(True)
                cur.deleted = set(saved.deleted)
            elif op[1] == "member_bags":
                if not saved.members:
                    continue
                hb.member_bags(True)
                cur.members = [list(m) for m in saved.members]
            else:
                if not saved.lookup:
                    continue
                hb.lookup_file("x", True)
                cur.lookup = [list(x) for x in saved.lookup]
        elif k == "reopen":
            if op[1]:
                saveall(hb)
                saved = cur.copy()
            hb = HeadBag(bd) if op[2] else as_headbag(Bag(bd))
            cur = saved.copy()
            ctx.tag("reopened")
        elif k == "ask":
            w = dict((x[0], x[1]) for x in cur.lookup).get(op[1])
            require(hb.lookup_file(op[1]) == w, "%s: lookup_file is %r, expected %r", what, hb.lookup_file(op[1]), w)
            continue            # one question only: do not load everything
        elif k == "bad":
            calls = [lambda: hb.add_file_lookup("", "m1"), lambda: hb.add_file_lookup("data/a", None), lambda: hb.add_file_lookup(3, "m1"),
                     lambda: hb.set_member_bags(["m1"]), lambda: hb.remove_file_lookup("")]
            try:
                calls[op[1]]()
            except (TypeError, ValueError):
                pass
            else:
                fail("%s: the call was not refused", what)
        elif k == "info":
            hb.update_info(op[1])
            require(op[1] is None or hb.head_version == op[1], "%s: head_version is %r", what, hb.head_version)
        if n % 3 == 2 or k in ("reopen", "upd"):
            compare(hb, cur, what)
    ctx.nontrivial(len(case["ops"]) >= 5 and len(kinds) >= 3)
    ctx.tag(*["op:" + k for k in kinds])
    compare(hb, cur, "after %d operations" % len(case["ops"]))
    for given, m in watch:
        require(len(given) == m, "the list given to set_member_bags() was changed later: %r", mem(given))
    saveall(hb)
    compare(hb, cur, "after saving")
    probs = bags.bag_problems(bd)
    require(not probs, "the saved head bag is not valid: %s", probs[:3])
    # what is on disk, by our own reader
    f = bags.tree(bd)[0]
    info = bags.info_dict(bags.parse_info(f["bag-info.txt"]))
    td = (info.get("Multibag-Tag-Directory") or ["multibag"])[-1]
    g = [x[0] for x in headgen.parse_members(f.get(td + "/member-bags.tsv", b""))]
    require(g == [m[0] for m in cur.members], "member-bags.tsv lists %r, expected %r", g, cur.members)
    g = [list(x) for x in headgen.parse_lookup(f.get(td + "/file-lookup.tsv", b""))]
    require(g == cur.lookup, "file-lookup.tsv lists %r, expected %r", g, cur.lookup)
    g = headgen.parse_deleted(f.get(td + "/deleted.txt", b""))
    require(sorted(g) == sorted(cur.deleted), "deleted.txt lists %r, expected %r", g, sorted(cur.deleted))
    compare(HeadBag(bd), cur, "reopened head bag")
    compare_ro(open_headbag(bd, readonly=True), cur, "head bag opened read-only", MissingMultibagFileError)
    compare_ro(ReadOnlyHeadBag(bd), cur, "ReadOnlyHeadBag", MissingMultibagFileError)
    ext = bags.SERS[len(case["ops"]) % len(bags.SERS)]
    z = bags.serialize(bd, ctx.dirpath(os.path.basename(bd)), ext)
    compare_ro(open_headbag(z), cur, "serialized head bag (%s)" % ext, MissingMultibagFileError)


def norm_part(s, part):
    return {"member_bags": s.members, "file_lookup": s.lookup}[part]


def setpart(saved, cur, part):
    c = cur.copy()
    if part == "member_bags":
        saved.members = c.members
    elif part == "file_lookup":
        saved.lookup = c.lookup
    else:
        saved.deleted = c.deleted


def saveall(hb):
    hb.save_member_bags()
    hb.save_file_lookup()
    hb.save_deleted()
    hb.save()
