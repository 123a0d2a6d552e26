"""the extended interface against the operating system"""
import os, io
from hypothesis import strategies as st
from .. import bags, gens, splitting
from ..engine import fail, require

ID, LEVEL = "C18", "exploration"
CASES = {"quick": 2400, "thorough": 60000}
RULE = ("case = a generated bag (odd names, empty directories, text files in several forms, fetch lists, look-alike files) x writable, "
        "read-only and serialized access x path spellings x walk starting points x replication targets; every answer compared with the "
        "operating system's on the directory; non-trivial: at least 3 files and a sub-directory; distinct by case hash")
TEXTS = [b"plain\n", b"", b"\xef\xbb\xbfwith BOM\nand more", "caf\u00e9\n\u65e5\u672c\n".encode("utf-8"), b"a\r\nb\r\n", b"a\rb\n",
         "x\u2028y\x85z\x0cw\x1cv\n".encode("utf-8"), b"no newline at end", b"\n\n\n", b"tab\tand space \n"]


@st.composite
def strategy(draw):
    spec = draw(gens.bag(max_files=7, min_files=draw(st.sampled_from([0, 2]))))
    if draw(st.integers(0, 3)) == 0:
        spec["fetch"] = [["http://a/b", "-", "data/to be fetched"]]
        if any(f[0].split("/")[1:2] == ["to be fetched"] for f in spec["files"]):
            spec["fetch"] = []
    n = draw(st.integers(0, 3))
    return {"bag": spec, "texts": draw(st.lists(st.integers(0, len(TEXTS) - 1), min_size=n, max_size=n)),
            "ext": draw(st.sampled_from(bags.SERS)), "de": draw(st.booleans()),
            "rep": draw(st.lists(st.integers(0, 40), max_size=5)), "dest": draw(st.sampled_from(["d", "d d", "d\u00e9", "d%20x", "osfs~", "a:b", "x!y", "d{0}", "$HOME", "#"])),
            "pre": draw(st.booleans()), "stale": draw(st.lists(st.sampled_from([None, None, "", "old content", "x" * 500]), min_size=3, max_size=3)), "mt": draw(st.integers(1000000000, 1700000000)), "frac": draw(st.sampled_from([0, 0.5, 0.25])),
            "cwd": draw(st.booleans()), "link": draw(st.booleans()),
            "root": draw(st.sampled_from(["bag", "b.c", "b b", "bag%41", "b~", "b\u00e9"]))}


def osdir(bd, start=""):
    out = []
    for root, ds, fs in os.walk(os.path.join(bd, start) if start else bd):
        rel = os.path.relpath(root, bd)
        out.append(("" if rel == "." else rel, tuple(sorted(ds)), tuple(sorted(fs))))
    return sorted(out)


def check(case, ctx):
    from multibag.access.bagit import Bag, open_bag, ReadOnlyBag
    from multibag.access.extended import as_extended, ExtendedReadWritableBag, ExtendedReadOnlyBag
    from multibag.access.multibag import open_headbag
    spec = dict(case["bag"], name=case["root"])
    extra = {"txt/%d.txt" % i: TEXTS[t] for i, t in enumerate(case["texts"])}
    if any(f[0] == "txt" for f in spec["files"]):
        extra = {}
    bd = bags.write_bag(ctx.dirpath("p"), spec, extra)
    files, dirs = bags.tree(bd)
    for i, p in enumerate(sorted(files)):
        t = case["mt"] + i + case["frac"]
        os.utime(os.path.join(bd, p), (t, t))
    ctx.nontrivial(len(spec["files"]) > 2 and any(f[0].count("/") > 1 for f in spec["files"]))
    zf = bags.serialize(bd, ctx.dirpath("ser"), case["ext"], case["de"])
    loc = bd
    if case["cwd"]:
        os.chdir(ctx.dirpath("p"))
        loc = case["root"]
        ctx.tag("relative location")
    forms = [("writable", ExtendedReadWritableBag(loc)), ("extended", as_extended(Bag(loc))), ("read-only", as_extended(open_bag(loc))),
             ("serialized as " + case["ext"], as_extended(open_bag(zf)))]
    if case["link"]:
        forms[1:3] = [("read-only path", ExtendedReadOnlyBag(loc))]
    ctx.tag("serialized as " + case["ext"])
    nonstd = sorted(p for p in files if not bags.is_special(p)) + sorted(bags.empty_dirs_of(files, dirs))
    if nonstd and any(p in dirs for p in nonstd):
        ctx.tag("empty directories")
    ask = sorted(files) + sorted(dirs) + ["nosuch", "data/no/such", "data/nosuch"] + [p + "x" for p in sorted(files)[:3]] + \
        [p + "/x" for p in sorted(files)[:2]] + [p[:-1] for p in sorted(files)[:3] if p[:-1] and p[:-1].rsplit("/", 1)[-1] not in ("", ".", "..")]
    for what, b in forms:
        ro = what not in ("writable", "extended")
        require(b.name == case["root"], "%s: name is %r", what, b.name)
        require(b.is_readonly == ro, "%s: is_readonly is %r", what, b.is_readonly)
        for p in ask:
            real = os.path.join(bd, p)
            for how, f, o in (("exists", b.exists, os.path.exists), ("isfile", b.isfile, os.path.isfile), ("isdir", b.isdir, os.path.isdir)):
                require(f(p) == o(real), "%s: %s(%r) is %r, expected %r", what, how, p, f(p), o(real))
            if p in files:
                require(b.sizeof(p) == len(files[p]), "%s: sizeof(%r) is %r, the file has %d bytes", what, p, b.sizeof(p), len(files[p]))
                m = b.timesfor(p).mtime
                if case["ext"] != ".zip" or not what.startswith("serialized"):
                    tol = 1 if what.startswith("serialized") else 0.001
                    require(m is not None and abs(m - os.stat(real).st_mtime) <= tol, "%s: the modification time of %r is %r, expected %r",
                            what, p, m, os.stat(real).st_mtime)
            elif p in dirs:
                m = b.timesfor(p).mtime
                if not what.startswith("serialized"):
                    require(m is not None and abs(m - os.stat(real).st_mtime) < 0.001, "%s: the modification time of directory %r is %r", what, p, m)
            else:
                for q in ("sizeof", "timesfor", "open_text_file"):
                    try:
                        r = getattr(b, q)(p)
                    except Exception:
                        continue
                    fail("%s: %s(%r) gave %r for a path that does not exist", what, q, p, r)
        # walks
        for start in [None, "", "data"] + sorted(dirs)[:5] + ["data/"]:
            w = [(d, tuple(sorted(s)), tuple(sorted(f))) for d, s, f in (b.walk() if start is None else b.walk(start))]
            o = osdir(bd, (start or "").rstrip("/"))
            require(sorted(w) == o, "%s: walk(%r) gives %r, expected %r", what, start, sorted(w), o)
        for bad in ["nosuch", "data/nosuch"] + [p for p in sorted(files) if "/" in p][:1]:
            try:
                w = list(b.walk(bad))
            except Exception:
                continue
            fail("%s: walk(%r) gave %r, there is no such directory", what, bad, w)
        got = list(b.nonstandard())
        require(sorted(got) == sorted(nonstd), "%s: nonstandard() gives %r, expected %r", what, sorted(got), sorted(nonstd))
        # text
        for p in extra:
            with io.open(os.path.join(bd, p), encoding="utf-8-sig") as fd:
                want = list(fd)
            with b.open_text_file(p) as fd:
                lines = list(fd)
            require([l.rstrip("\r\n") for l in lines] == [l.rstrip("\r\n") for l in want], "%s: the lines of %r are %r, expected %r", what, p,
                    lines, want)
            with b.open_text_file(p, encoding="latin-1") as fd:
                require(fd.read().replace("\r\n", "\n").replace("\r", "\n") ==
                        files[p].decode("latin-1").replace("\r\n", "\n").replace("\r", "\n"), "%s: encoding is not used for %r", what, p)
    # replication
    targets = sorted(files) + sorted(dirs)
    for what, b in forms:
        if hasattr(b, "replicate_with_hardlink"):
            b.replicate_with_hardlink = case["link"]
            require(b.replicate_with_hardlink is bool(case["link"]), "replicate_with_hardlink can not be set")
        dest = ctx.dirpath("out", what.replace(" ", "_").replace(".", "_"), case["dest"])
        os.makedirs(dest)
        have = {}
        if case["pre"]:
            bags.write_file(os.path.join(dest, "data", "already~there"), b"keep me")
            bags.write_file(os.path.join(dest, "zz"), b"keep me too")
            have = {"data/already~there": b"keep me", "zz": b"keep me too"}
            if any(f.split("/")[0] == "zz" for f in files):
                continue
        hd = set()
        for i in case["rep"]:
            p = targets[i % len(targets)]
            if p == "data/already~there" or p in have:
                continue
            old = case["stale"][i % 3] if p in files else None
            if old is not None:
                # there is a file with other content already
                ctx.tag("replicated onto an existing file")
                bags.write_file(os.path.join(dest, p), old.encode())
            if case["stale"][0] is None:
                b.replicate(p, dest)
            else:
                b.replicate(p, dest, splitting.LOG)
            if p in files:
                have[p] = files[p]
            else:
                hd.add(p)
            f, d = bags.tree(dest)
            require(sorted(f) == sorted(have), "%s: after replicating %r the destination has %r, expected %r", what, p, sorted(f), sorted(have))
            for k in have:
                require(f[k] == have[k], "%s: after replicating %r, the content of %r is wrong", what, p, k)
            par = set()
            for x in list(have) + [h + "/." for h in hd]:
                ps = x.split("/")
                par.update("/".join(ps[:k]) for k in range(1, len(ps)))
            require(d == par, "%s: after replicating %r, the directories are %r, expected %r", what, p, sorted(d), sorted(par))
            require(os.listdir(os.path.dirname(dest)) == [case["dest"]], "%s: replicating made %r", what, os.listdir(os.path.dirname(dest)))
            if old is not None:
                pass
            elif p in files and case["link"] and what in ("writable", "extended"):
                require(os.path.samefile(os.path.join(dest, p), os.path.join(bd, p)), "%s: %r was not hard-linked", what, p)
            elif p in files:
                require(not os.path.samefile(os.path.join(dest, p), os.path.join(bd, p)), "%s: %r was hard-linked", what, p)
        for bad in ["nosuch", "data/nosuch"]:
            try:
                b.replicate(bad, dest)
            except ValueError:
                pass
            else:
                fail("%s: replicating %r, which does not exist, did not raise", what, bad)
        f, d = bags.tree(dest)
        require(sorted(f) == sorted(have), "%s: a refused replication left %r", what, sorted(set(f) - set(have)))
    f, d = bags.tree(bd)
    require(f == files and d == dirs, "the bag was changed")
