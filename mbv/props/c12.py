"""directory and serialized forms of a bag"""
import codecs, os, io, shutil, zipfile, tarfile
from hypothesis import strategies as st
from .. import bags, gens, headgen
from ..engine import fail, require

ID, LEVEL = "C12", "exploration"
CASES = {"quick": 1600, "thorough": 50000}
RULE = ("case = generated bag (head bags, fetch lists, nested bags, look-alike names, several algorithms) in one archive form with its own "
        "file name, with or without directory entries, with or without other top-level entries; every observation of the bag compared "
        "between the LOC library on the directory, the read-only and the writable interface and the archive; non-trivial: 2 or more files "
        "and (subdirectories or tag files); distinct by case hash")
ARC = ["same", "other", "bag v1.0", "a.tar", "x.zip", "bagit.txt", "data", "b\u00e9"]


@st.composite
def strategy(draw):
    spec = draw(gens.bag(max_files=9))
    if spec["version"] == "0.97" and draw(st.integers(0, 3)) == 0:
        spec["version"] = draw(st.sampled_from(["0.93", "0.94", "0.95", "0.96", "0.98", "1.1"]))
    if spec["info"] and draw(st.integers(0, 3)) == 0:
        # folded lines
        for x in spec["info"]:
            if " " in x[1]:
                x[1] = x[1].replace(" ", draw(st.sampled_from(["\n ", "\n  ", "\n\t", " \n   "])), 1)
    if spec["version"] == "0.97" and draw(st.integers(0, 3)) == 0:
        taken = set(f[0].split("/")[1] for f in spec["files"] if f[0].startswith("data/")) | set(d.split("/")[1] for d in spec["dirs"] if "/" in d)
        spec["fetch"] = [["http://h/%d" % i, draw(st.sampled_from(["-", "12"])), p] for i, p in enumerate(["data/fetchme", "data/f x/y z"])
                         if p.split("/")[1] not in taken]
    case = {"bag": spec, "ext": draw(st.sampled_from(bags.SERS)), "arc": draw(st.sampled_from(ARC)), "direntries": draw(st.booleans()),
            "nested": draw(st.sampled_from([None, None, "data/inner", "data/a/inner", "aa"])),
            "junk": draw(st.sampled_from([[], [], ["AAA/x"], ["README"], ["aa/bagit.txt.bak", "zz/y"], ["0/0/0/x"]])),
            "prefix": draw(st.sampled_from(["", "", "", "./", "outer/"])),
            "reldir": draw(st.booleans())}
    case["head"] = draw(headgen.head(spec["name"])) if draw(st.booleans()) else None
    case["spell"] = draw(st.sampled_from(["", "/", "//", "/.", "/data/.."]))
    case["hbom"] = draw(st.booleans()) if case["head"] and draw(st.booleans()) else False
    if case["head"] and draw(st.integers(0, 7)) == 0:
        case["head"]["version"] = ""
    if not case["head"] and draw(st.integers(0, 3)) == 0:
        enc = draw(st.sampled_from(["ISO-8859-1", "UTF-16", "utf-8", "us-ascii"]))
        try:
            repr_ = "".join(str(x) for x in [spec["files"], spec["dirs"], spec["info"], spec.get("fetch"), case["nested"]])
            repr_.encode(enc)
            spec["encoding"] = enc
        except UnicodeError:
            pass
    if spec.get("encoding", "UTF-8") == "UTF-8" and draw(st.integers(0, 3)) == 0:
        pool = ["manifest", "tagmanifest", "fetch"] + (["info"] if spec["info"] else [])
        spec["bom"] = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True))
    if case["prefix"] == "./" and case["ext"] == ".zip":
        case["prefix"] = ""
    case["junk"] = [j for j in case["junk"] if j.split("/")[0] != spec["name"]] if case["prefix"] != "outer/" else []
    return case


def observe(bag, files, dirs, how):
    """everything a bag object says, as plain data"""
    from multibag.access.extended import as_extended
    o = {}
    as_extended(bag)
    o["name"] = bag.name
    o.update(base_obs(bag))
    w = [(d, tuple(sorted(s)), tuple(sorted(f))) for d, s, f in bag.walk()]
    require(len(set(x[0] for x in w)) == len(w), "%s: walk() reports a directory twice: %r", how, w)
    o["walk"] = sorted(w)
    o["size"] = {p: bag.sizeof(p) for p in files}
    probe = sorted(files) + sorted(dirs) + ["nosuch", "data/nosuch", "data", "dat"] + [p + "x" for p in sorted(files)[:3]] + \
        [p + "/x" for p in sorted(files)[:3]]
    o["exists"] = {p: bag.exists(p) for p in probe}
    o["isfile"] = {p: bag.isfile(p) for p in probe}
    o["isdir"] = {p: bag.isdir(p) for p in probe}
    o["text"] = {}
    for p in files:
        enc = "utf-8-sig" if istext(p, files) else "latin-1"
        with bag.open_text_file(p, encoding=enc) as fd:
            o["text"][p] = nl(fd.read())
        if enc == "utf-8-sig":
            with bag.open_text_file(p) as fd:
                require(nl(fd.read()) == o["text"][p], "%s: text of %r differs between default and explicit encoding", how, p)
    o["ns"] = sorted(bag.nonstandard())
    o["ishead"] = bag.is_head_multibag()
    return o


def istext(p, files):
    if not (bags.is_special(p) or p == "package-info.txt" or p.startswith(("multibag/", "mbag/"))):
        return False
    try:
        files[p].decode("utf-8-sig")
        return True
    except UnicodeError:
        return False        # a bag in another encoding


def nl(t):
    """line ends may or may not be translated"""
    return t.replace("\r\n", "\n").replace("\r", "\n")


def base_obs(bag):
    o = {}
    o["version"] = bag.version
    o["vinfo"] = tuple(bag.version_info)
    o["encoding"] = bag.encoding
    o["info"] = {k: list(v) if isinstance(v, list) else v for k, v in bag.info.items()}
    o["entries"] = {k: dict(v) for k, v in bag.entries.items()}
    o["payload_entries"] = {k: dict(v) for k, v in bag.payload_entries().items()}
    o["tagfile_entries"] = {k: dict(v) for k, v in bag.tagfile_entries().items()}
    o["algs"] = sorted(set(bag.algorithms))
    p = list(bag.payload_files())
    o["payload"] = sorted(p)
    o["fetch"] = [tuple(x) for x in bag.fetch_entries()]
    o["has_oxum"] = bag.has_oxum()
    for kw in ({}, {"completeness_only": True}, {"fast": True}):
        try:
            bag.validate(**kw)
            o["valid%r" % kw] = True
        except Exception as ex:
            o["valid%r" % kw] = type(ex).__name__
    o["is_valid"] = bag.is_valid()
    o["missing"] = sorted(bag.missing_optional_tagfiles())
    return o


def headobs(hb):
    o = {"hv": hb.head_version, "pv": hb.profile_version, "td": hb.multibag_tag_dir}
    o["mem"] = [(m.name, m.uri, m.comment, tuple(m.info)) for m in hb.member_bags()]
    o["names"] = list(hb.member_bag_names)
    o["lu"] = [tuple(x) for x in hb.iter_file_lookup()]
    o["lu2"] = [hb.lookup_file(x[0]) for x in o["lu"]]
    o["in"] = {n: hb.files_in_member(n) for n in o["names"]}
    o["del"] = sorted(hb.deleted_paths())
    return o


def diff(a, b, na, nb):
    for k in sorted(set(a) & set(b)):
        if a[k] != b[k]:
            if isinstance(a[k], dict) and isinstance(b[k], dict):
                for x in sorted(set(a[k]) | set(b[k])):
                    if a[k].get(x) != b[k].get(x):
                        fail("%s[%r] is %r from %s but %r from %s", k, x, a[k].get(x), na, b[k].get(x), nb)
            fail("%s is %r from %s but %r from %s", k, a[k], na, b[k], nb)


def archive(case, bd, dest):
    ext, arc = case["ext"], case["arc"]
    if arc == "same":
        arc = os.path.basename(bd)
    if not case["junk"]:
        return bags.serialize(bd, os.path.join(dest, arc), ext, case["direntries"], case["prefix"])
    # other things are in the archive, before the bag
    fn = os.path.join(dest, arc + ext)
    tmp = bags.serialize(bd, os.path.join(dest, "tmp"), ext, case["direntries"], case["prefix"])
    if ext == ".zip":
        with zipfile.ZipFile(tmp) as zi, zipfile.ZipFile(fn, "w") as zo:
            for j in case["junk"]:
                zo.writestr(j, b"junk")
            for i in zi.infolist():
                zo.writestr(i, zi.read(i))
    else:
        mode = {".tar": "w", ".tar.gz": "w:gz", ".tgz": "w:gz", ".tar.bz2": "w:bz2"}[ext]
        with tarfile.open(tmp) as ti, tarfile.open(fn, mode, format=tarfile.PAX_FORMAT) as to:
            for j in case["junk"]:
                t = tarfile.TarInfo(j)
                t.size = 4
                to.addfile(t, io.BytesIO(b"junk"))
            for i in ti:
                to.addfile(i, ti.extractfile(i) if i.isfile() else None)
    os.remove(tmp)
    return fn


def check(case, ctx):
    import bagit
    from multibag.access.bagit import Bag, ReadOnlyBag, open_bag, BagError
    from multibag.access.extended import as_extended, ExtendedReadOnlyBag
    from multibag.access.multibag import open_headbag, as_headbag, HeadBag, ReadOnlyHeadBag, is_headbag
    spec = dict(case["bag"])
    extra = {}
    if case["nested"]:
        n = case["nested"]
        if not any(f[0] == n or f[0].startswith(n + "/") or (n + "/").startswith(f[0] + "/") for f in spec["files"]) and n not in spec["dirs"] \
           and not any((n + "/").startswith(d + "/") for d in spec["dirs"]):
            if n.startswith("data/"):
                spec["files"] = spec["files"] + [[n + "/bagit.txt", 20, 7], [n + "/manifest-md5.txt", 5, 7], [n + "/data/q", 3, 7]]
            else:
                extra[n + "/bagit.txt"] = b"BagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-8\n"
                extra[n + "/data/q"] = b"q"
            ctx.tag("nested bag")
    if case["head"]:
        spec["info"] = list(spec["info"] or []) + headgen.info(case["head"])
        hx = headgen.extra(case["head"])
        if case.get("hbom"):
            hx = {k: codecs.BOM_UTF8 + b for k, b in hx.items()}
            ctx.tag("byte order marks in the head bag files")
        extra.update(hx)
        ctx.tag("head bag")
    root = ctx.dirpath("d")
    bd = bags.write_bag(root, spec, extra)
    files, dirs = bags.tree(bd)
    ctx.tag("form:" + case["ext"], "arc:" + case["arc"], "entries:%s" % case["direntries"])
    ctx.tag("BagIt " + spec["version"], "encoding:" + spec.get("encoding", "UTF-8"))
    if spec.get("bom"):
        ctx.tag("byte order marks")
    if any("\n" in x[1] for x in spec["info"] or []):
        ctx.tag("folded tag values")
    if case["junk"]:
        ctx.tag("other entries in archive")
    ctx.nontrivial(len(spec["files"]) > 1 and (len(dirs) > 1 or any(not f[0].startswith("data/") for f in spec["files"])))
    z = archive(case, bd, ctx.dirpath())
    loc = base_obs(bagit.Bag(bd))
    disk = {"name": spec["name"], "size": {p: len(b) for p, b in files.items()}}
    if case["reldir"]:
        os.chdir(root)
        bd = spec["name"]
    forms = [("ReadOnlyBag on the directory", ReadOnlyBag(bd)), ("open_bag on the directory", open_bag(bd)),
             ("ExtendedReadOnlyBag on the directory", ExtendedReadOnlyBag(bd)),
             ("Bag on the directory", as_extended(Bag(bd))), ("open_bag on %s" % os.path.basename(z), open_bag(z))]
    obs = []
    for what, b in forms:
        o = observe(b, files, dirs, what)
        diff(loc, o, "the bagit library", what)
        diff(disk, o, "the directory", what)
        require(set(o["text"]) == set(files), "x")
        for p in files:
            enc = "utf-8-sig" if istext(p, files) else "latin-1"
            t = io.TextIOWrapper(io.BytesIO(files[p]), encoding=enc).read()
            require(o["text"][p] == nl(t), "text of %r from %s is not that in the file", p, what)
        obs.append(o)
        if isinstance(b, ReadOnlyBag):
            require(b.is_readonly, "%s is not read-only", what)
            try:
                b.save()
            except BagError:
                pass
            else:
                fail("%s could be saved", what)
        if not case["head"] or case["head"]["version"]:
            require(bool(o["ishead"]) == bool(case["head"]), "%s: is_head_multibag() is %r", what, o["ishead"])
    for i in range(len(obs) - 1):
        diff(obs[i], obs[-1], forms[i][0], forms[-1][0])
    # what was there, is there
    o = obs[-1]
    require(all(o["isfile"][p] for p in files) and all(o["isdir"][d] for d in dirs), "%s lacks some of the files", forms[-1][0])
    gw = set()
    for d, s, f in o["walk"]:
        gw.update((d + "/" if d else "") + x for x in f)
    require(gw == set(files), "walk() over %s gives %r, expected %r", forms[-1][0], sorted(gw), sorted(files))
    for loc_ in (bd, z):
        require(is_headbag(loc_) == bool(o["ishead"]), "is_headbag(%r) is %r, is_head_multibag(), %r", loc_, is_headbag(loc_), o["ishead"])
    # other spellings of the directory's path
    sp = bd + case.get("spell", "")
    ctx.tag("path ends:" + case.get("spell", ""))
    for what, b in (("open_bag", open_bag(sp)), ("ReadOnlyBag", ReadOnlyBag(sp)), ("Bag", Bag(sp))):
        b = as_extended(b)
        require(b.name == spec["name"], "%s(%r) is named %r", what, sp, b.name)
        require(sorted(b.payload_files()) == o["payload"], "%s(%r) has the payload %r, expected %r", what, sp, sorted(b.payload_files()), o["payload"])
        require(b.is_valid() == o["is_valid"], "%s(%r) is valid: %r, expected %r", what, sp, b.is_valid(), o["is_valid"])
    if case["head"]:
        hs = [("open_headbag on the directory", open_headbag(bd)), ("HeadBag", HeadBag(bd)),
              ("read-only head bag", open_headbag(bd, readonly=True)), ("ReadOnlyHeadBag", ReadOnlyHeadBag(bd)),
              ("as_headbag of the archive", as_headbag(open_bag(z))), ("open_headbag on the archive", open_headbag(z))]
        ho = [headobs(h) for _, h in hs]
        for i in range(len(ho) - 1):
            diff(ho[i], ho[-1], hs[i][0], hs[-1][0])
        h = case["head"]
        require(ho[-1]["mem"] == [(m[0], m[1], m[2], ()) for m in h["members"]], "members are read as %r, written %r", ho[-1]["mem"], h["members"])
        require(ho[-1]["lu"] == [tuple(x) for x in h["lookup"]], "lookup is read as %r", ho[-1]["lu"])
        require(ho[-1]["del"] == sorted(set(h["deleted"])), "deleted is read as %r", ho[-1]["del"])
    if not spec.get("fetch"):
        require(o["is_valid"] is True, "the bag is not valid in any form")
