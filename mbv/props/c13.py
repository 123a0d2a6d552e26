"""damaged bags"""
import os, re, shutil, hashlib, unicodedata
from hypothesis import strategies as st
from .. import bags, gens, headgen
from ..engine import fail, require

ID, LEVEL = "C13", "exploration"
CASES = {"quick": 3000, "thorough": 90000}
RULE = ("case = generated bag x 0-2 damages (flip, truncate, extend, remove, rename, swap files, unlisted files, manifest edits, removed "
        "manifests or data directory, Payload-Oxum edits, bagit.txt edits; and harmless changes) x archive form; verdicts of the "
        "directory and serialized forms compared with the LOC bagit library on the directory; non-trivial: at least one damage, and the "
        "bag has payload; distinct by case hash")
KINDS = ["flip", "flip", "trunc", "extend", "remove", "rename", "swap", "addfile", "adddir", "rmmanifest", "rmmanifests", "rmdata", "sum", "sum",
         "badsum", "upper", "dup", "dupother", "unlist", "listmissing", "oxum", "oxum", "badoxum", "oxum2", "bagit", "bom", "star", "dot", "crlf",
         "rmtagmanifest", "comment", "nfc", "nfdfile", "case", "emptyfile", "filedir"]
HARMLESS = {"adddir", "upper", "star", "dot", "crlf", "rmtagmanifest", "comment", "oxum2", "case", "rmmanifest", "nfc", "nfdfile", "dup", "emptyfile"}


@st.composite
def strategy(draw):
    spec = draw(gens.bag(max_files=6, min_files=draw(st.sampled_from([0, 1, 2]))))
    n = draw(st.sampled_from([0, 1, 1, 1, 1, 1, 2]))
    dam = [[draw(st.sampled_from(KINDS)), draw(st.integers(0, 50)), draw(st.integers(0, 50))] for _ in range(n)]
    return {"bag": spec, "damage": dam, "ext": draw(st.sampled_from(bags.SERS)), "oxum": draw(st.booleans()),
            "multi": draw(st.integers(0, 3)) == 0}


def retag(bd, spec):
    """refresh the tag manifests (so that only the damage itself shows)"""
    bags.write_tagmanifests(bd, [a for a in spec["tagalgs"] if os.path.exists(os.path.join(bd, "tagmanifest-%s.txt" % a))])


def encodable(name):
    try:
        os.fsencode(name)
        return True
    except UnicodeEncodeError:
        return False


def cutchar(bd):
    """does a tag file end within a character?  The bagit library then does not see these last bytes (this is what codecs.open() does)"""
    for n in os.listdir(bd):
        if bags.SPECIAL.match(n) and os.path.isfile(os.path.join(bd, n)):
            with open(os.path.join(bd, n), "rb") as f:
                b = f.read()
            try:
                b.decode("utf-8")
            except UnicodeDecodeError as ex:
                if "unexpected end" in ex.reason:
                    return True
    return False


def damage(bd, d, spec, ctx):
    """returns the kind if something was really changed"""
    kind, i, j = d
    files, dirs = bags.tree(bd)
    payload = sorted(p for p in files if p.startswith("data/"))
    listed = set(payload)
    tm = bags.manifests(files, "tagmanifest")[0]
    for a in tm:
        listed.update(tm[a])
    listed = sorted(p for p in listed if p in files)
    mans = sorted(p for p in files if re.match(r"manifest-\w+\.txt\Z", p))
    path = lambda p: os.path.join(bd, p)

    def put(p, b):
        with open(path(p), "wb") as f:
            f.write(b)

    def manlines():
        m = mans[i % len(mans)]
        return m, [l for l in files[m].decode("utf-8").split("\n") if l]

    if kind in ("flip", "trunc", "extend", "remove", "rename"):
        if not listed:
            return None
        p = listed[i % len(listed)]
        b = files[p]
        if kind == "flip":
            if not b:
                return None
            k = j % len(b)
            if (i + j) % 2:
                k = len(b) - 1 - k      # (beyond the first block read)
            put(p, b[:k] + bytes([b[k] ^ (1 << (i % 8))]) + b[k + 1:])
        elif kind == "trunc":
            if not b:
                return None
            put(p, b[:-(j % len(b) + 1)])
        elif kind == "extend":
            put(p, b + b"x" * (j % 3 + 1))
        elif kind == "remove":
            os.remove(path(p))
        else:
            os.rename(path(p), path(p) + "~")
        return kind + (" payload" if p.startswith("data/") else " tag file")
    if kind == "filedir":
        # a directory in the place of a file
        if not listed:
            return None
        p = listed[i % len(listed)]
        os.remove(path(p))
        os.mkdir(path(p))
        if j % 3 == 0:
            put(p + "/x", files[p])
        return kind + (" payload" if p.startswith("data/") else " tag file")
    if kind == "swap":
        if len(payload) < 2 or files[payload[i % len(payload)]] == files[payload[j % len(payload)]]:
            return None
        a, b = payload[i % len(payload)], payload[j % len(payload)]
        put(a, files[b])
        put(b, files[a])
        return kind
    if kind == "addfile":
        p = ["data/unlisted", "data/sub/unlisted", "data/.hidden_", "data/_x", "data/zz/manifest-md5.txt", "data/bagit.txt"][i % 6]
        if p in files or p in dirs or any(p.startswith(f + "/") for f in files):
            return None
        os.makedirs(os.path.dirname(path(p)), exist_ok=True)
        put(p, b"new" * (j % 3))
        return kind
    if kind == "emptyfile":
        p = "unlistedtag.txt"
        if p in files or p in dirs:
            return None
        put(p, b"")
        return kind
    if kind == "adddir":
        if "data/newdir" in files or not os.path.isdir(path("data")):
            return None
        os.makedirs(path("data/newdir"), exist_ok=True)
        return kind
    if kind == "rmmanifest":
        if len(mans) < 2 or spec.get("partial"):
            return None
        os.remove(path(mans[i % len(mans)]))
        retag(bd, spec)
        return kind
    if kind == "rmmanifests":
        for m in mans:
            os.remove(path(m))
        retag(bd, spec)
        return kind
    if kind == "rmtagmanifest":
        x = [p for p in files if re.match(r"tagmanifest-\w+\.txt\Z", p)]
        for m in x:
            os.remove(path(m))
        return kind if x else None
    if kind == "nfdfile":
        # a file system that keeps its names in another Unicode normalization form
        if not mans or not os.path.isdir(path("data")):
            return None
        conv = lambda q: unicodedata.normalize("NFD" if unicodedata.normalize("NFC", q) == q else "NFC", q)
        p = payload[i % len(payload)] if payload else "data/x"
        d, b = os.path.split(p)
        if conv(b) == b:
            p = os.path.join(d, ["\u00e9t\u00e9.txt", "e\u0301", "\u00c5ngstr\u00f6m", "\ud55c"][j % 4])
            if p in files or p in dirs or any(unicodedata.normalize("NFC", q) == unicodedata.normalize("NFC", p) for q in files):
                return None
            if not encodable(conv(os.path.basename(p))) or not encodable(p):
                return None
            c = b"new" * (i % 3)
            for m in mans:
                put(m, files[m] + ("%s  %s\n" % (hashlib.new(m[9:-4], c).hexdigest(), p)).encode("utf-8"))
        else:
            c = files[p]
            if os.path.join(d, conv(b)) in files:
                return None
            if not encodable(conv(b)):
                return None
            os.remove(path(p))
        put(os.path.join(d, conv(os.path.basename(p))), c)
        retag(bd, spec)
        return kind
    if kind == "rmdata":
        if not os.path.isdir(path("data")):
            return None
        shutil.rmtree(path("data"))
        return kind
    if kind in ("sum", "badsum", "upper", "dup", "dupother", "unlist", "listmissing", "star", "dot", "crlf", "comment", "nfc", "case"):
        if not mans:
            return None
        m, lines = manlines()
        if not lines and kind not in ("listmissing", "comment"):
            return None
        k = j % len(lines) if lines else 0
        h, p = (lines[k].split(None, 1) + [""])[:2] if lines else ("", "")
        if kind == "sum":
            if not h:
                return None
            x = i % len(h)
            lines[k] = h[:x] + ("1" if h[x] != "1" else "2") + h[x + 1:] + "  " + p
        elif kind == "badsum":
            lines[k] = ["zz  " + p, h[:-2] + "  " + p, p, h, "-  " + p, h + "0  " + p][i % 6]
        elif kind == "upper":
            lines[k] = h.upper() + "  " + p
        elif kind == "dup":
            lines.append(lines[k])
        elif kind == "dupother":
            lines.append("0" * len(h) + "  " + p)
        elif kind == "unlist":
            del lines[k]
        elif kind == "listmissing":
            a = m[9:-4]
            lines.append("%s  %s" % (hashlib.new(a, b"").hexdigest(), ["data/not there", "data/x/y/z", "nosuch"][i % 3]))
        elif kind == "star":
            lines[k] = h + " *" + p
        elif kind == "dot":
            lines[k] = h + "  ./" + p
        elif kind == "comment":
            lines.insert(0, "# comment")
            lines.append("")
        elif kind == "nfc":
            q = unicodedata.normalize("NFD" if unicodedata.normalize("NFC", p) == p else "NFC", p)
            if q == p or not encodable(q):
                return None
            lines[k] = h + "  " + q
        elif kind == "case":
            lines[k] = h[:1].upper() + h[1:] + "\t" + p
        put(m, ((("\r\n" if kind == "crlf" else "\n").join(lines)) + "\n").encode("utf-8"))
        retag(bd, spec)
        return kind
    if kind in ("oxum", "badoxum", "oxum2"):
        n, sz = len(payload), sum(len(files[p]) for p in payload)
        right = "%d.%d" % (sz, n)
        if kind == "oxum":
            v = ["%d.%d" % (sz + 1, n), "%d.%d" % (sz, n + 1), "%d.%d" % (n, sz), "0.0", "%d.%d" % (max(sz - 1, 0), n)][i % 5]
            if v == right:
                return None
            vals = [v]
        elif kind == "badoxum":
            vals = [["%d" % sz, "a.b", "%d." % sz, ".%d" % n, "x", "%d,%d" % (sz, n), "-1.1"][i % 7]]
        else:
            vals = [right, "1.1"]
        inf = [(k, v) for k, v in bags.parse_info(files.get("bag-info.txt", b"")) if k != "Payload-Oxum"] + [("Payload-Oxum", v) for v in vals]
        put("bag-info.txt", bags.info_text(inf).encode("utf-8"))
        retag(bd, spec)
        return kind
    if kind == "bagit":
        b = [b"BagIt-Version: 0.97\n", b"Tag-File-Character-Encoding: UTF-8\n", b"BagIt-Version: x\nTag-File-Character-Encoding: UTF-8\n",
             b"BagIt-Version: 0.97\nTag-File-Character-Encoding: NOSUCH\n", b"", b"garbage\n", None,
             b"BagIt-Version: 3.0\nTag-File-Character-Encoding: UTF-8\n", b"BagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-16\n"][i % 9]
        if b is None:
            os.remove(path("bagit.txt"))
        else:
            put("bagit.txt", b)
        retag(bd, spec)
        return kind + str(i % 9)
    if kind == "bom":
        put("bagit.txt", b"\xef\xbb\xbf" + files["bagit.txt"])
        retag(bd, spec)
        return kind
    raise AssertionError(kind)


def verdict(mk, **kw):
    """None if valid, else what was raised"""
    return outcome(mk, **kw)[0]


def outcome(mk, **kw):
    """(None if valid else what was raised, [(kind of problem, path)...])"""
    try:
        mk().validate(**kw)
        return None, []
    except Exception as ex:
        return "%s: %s" % (type(ex).__name__, ex), \
            sorted((type(d).__name__, getattr(d, "path", "")) for d in getattr(ex, "details", None) or [])


def check(case, ctx):
    import bagit
    from multibag.access.bagit import Bag, ReadOnlyBag, open_bag
    from multibag.access.extended import as_extended
    from multibag.validate import BagValidator, HeadBagValidator, MemberBagValidator
    from multibag.validate.base import ERROR, PROB
    spec = case["bag"]
    bd = bags.write_bag(ctx.dirpath("d"), spec)
    done = []
    for d in case["damage"]:
        try:
            k = damage(bd, d, spec, ctx)
        except (KeyError, FileNotFoundError, NotADirectoryError, IsADirectoryError, FileExistsError):
            k = None            # an earlier damage took away what this one needs
        if k:
            done.append(k)
    ctx.tag(*(done or ["intact"]))
    ctx.nontrivial(bool(done) and bool(spec["files"]))
    want = verdict(lambda: bagit.Bag(bd))
    if not done:
        require(want is None, "an intact bag is not valid: %s", want)
    if os.path.isdir(bd) and cutchar(bd):
        ctx.tag("tag file ends within a character")
        cut = True
        if want is None:
            return
    else:
        cut = False
    ctx.tag("invalid" if want else "valid")
    if all(k in HARMLESS for k in done) and want is None:
        ctx.tag("harmless change")
    z = None
    if os.path.isdir(bd):
        z = bags.serialize(bd, ctx.dirpath(os.path.basename(bd)), case["ext"])
    forms = [("directory (open_bag)", bd, lambda: open_bag(bd)), ("directory (ReadOnlyBag)", bd, lambda: ReadOnlyBag(bd)),
             ("directory (Bag)", None, lambda: as_extended(Bag(bd))),
             ("serialized as " + case["ext"], z, lambda: open_bag(z))]
    for what, loc, mk in forms:
        got = verdict(mk)
        if want is None:
            require(got is None, "a valid bag (%s) is refused as %s: %s", done or "intact", what, got)
        else:
            require(got is not None, "a bag with damage %r is accepted as %s; the bagit library says: %s", done, what, want)
        for kw in ({}, {"completeness_only": True}, {"fast": True}, {"processes": 2}):
            if cut or "processes" in kw and (loc is None or not case.get("multi")):
                continue
            wk, wd = outcome(lambda: bagit.Bag(bd), **{k: v for k, v in kw.items() if k != "processes"})
            gk, gd = outcome(mk, **kw)
            require((gk is None) == (wk is None), "validate(%r) of a bag with damage %r as %s gives %r, with the bagit library %r", kw, done, what,
                    gk, wk)
            if wd and gd:
                require(wd == gd, "validate(%r) of a bag with damage %r as %s reports %r, the bagit library %r", kw, done, what, gd, wd)
        b = None
        try:
            b = mk()
        except Exception:
            pass
        if b is not None:
            try:
                v = b.is_valid()
            except ValueError:
                v = False       # the library's own is_valid() does not cover malformed Payload-Oxum tags
            require(v == (want is None), "is_valid() is %r for a bag with damage %r as %s, validate() says %r", v, done, what, want)
        if loc is None:
            continue
        for cls in (BagValidator, HeadBagValidator, MemberBagValidator):
            try:
                val = cls(loc)
            except Exception as ex:
                require(b is None, "%s(...) raised %r for a bag that can be opened, as %s", cls.__name__, ex, what)
                require(want is not None, "%s(...) raised %r for a valid bag, as %s", cls.__name__, ex, what)
                continue
            try:
                res = val.validate(PROB)
            except Exception as ex:
                fail("%s.validate() raised %s: %s on a bag with damage %r as %s", cls.__name__, type(ex).__name__, ex, done, what)
            two = [x for x in res.applied(ERROR) if x.label == "2-Bag"]
            require(len(two) == 1, "%s applied the BagIt test %d times", cls.__name__, len(two))
            require(two[0].passed() == (want is None), "%s: the BagIt test %s on a bag with damage %r as %s; the bagit library says: %s",
                    cls.__name__, "passed" if two[0].passed() else "failed", done, what, want)
            if want:
                require(len(two[0].comments) > 0 and all(two[0].comments[:1]), "%s: no comment says what is wrong with a bag with damage %r",
                        cls.__name__, done)
