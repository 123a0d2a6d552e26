"""Generators.  All of them produce plain JSON-serialisable data."""
import json, re
from hypothesis import strategies as st

# ---- names ---------------------------------------------------------------------------------
# File names are drawn from (a) ordinary short names that collide and share prefixes, (b) names
# that have been trouble for tools like this one, (c) arbitrary unicode text.
PLAIN = ["a", "b", "ab", "a.txt", "b.txt", "abc", "x1", "A", "a-b", "a_b", "readme", "0"]
TRICKY = ["bagit.txt", "bag-info.txt", "fetch.txt", "manifest-md5.txt", "manifest-sha256.txt",
          "tagmanifest-sha256.txt", "manifest-md5.txt.bak", "bagitXtxt", "bag-infoxtxt", "data", "multibag",
          "member-bags.tsv", "file-lookup.tsv", "a b", "a  b", "x y z.dat", "#1", "a#b", "# a", "%41", "50%",
          "a~", "~a", "a$", "@a", "a@b", "!a", "a!b", "a?b", "a[1]", "a;b", "a,b", "a:b", "a'b", 'a"b',
          "a&b", "a|b", "(a)", "{a}", "=a", "+a", "^", "`", ".hidden", "_under", "...", "-", "-n", "a.zip",
          "\u00e9t\u00e9.txt", "e\u0301.txt", "\u65e5\u672c.txt", "\U0001f600", "na\u00efve data", "\u00df", "\u0130",
          "a\u00a0b", "a.tar.gz", "x.mbag", "CON", "data.txt", "datafile", "aux.d"]
# names that tools like to pass over
HIDDEN = [".hidden", ".x", "..a", ".git", ".DS_Store", "_tmp", "Thumbs.db", "a.tmp", "a.bak", "CVS", "__pycache__", ".bagit.txt", "#a#"]
# tag files that are not BagIt's own, though they look alike
ROOTLIKE = ["manifest-md5.txt.bak", "manifest-notes.md", "manifest-", "tagmanifest-a", "xmanifest-md5.txt", "bagit.txt.old", "my-bag-info.txt",
            "bag-info.txt~", "Bagit.txt", "fetch.txt.1", "manifest.txt", "manifest_md5.txt", "fetch", "bagit", "manifest-md5.TXT", "manifest-a b.txt2"]
_bad = set("/\\*$%~\x7f")


def _ok_component(s):
    return (s and s == s.strip() and s not in (".", "..") and not (set(s) & _bad)
            and not re.search(r"[\x00-\x1f\x7f-\x9f\u2028\u2029]", s))


_free = st.text(alphabet=st.characters(codec="utf-8", categories=("L", "N", "P", "S", "Zs")),
                min_size=1, max_size=6).map(lambda s: s.strip()).filter(_ok_component)

component = st.one_of(st.sampled_from(PLAIN), st.sampled_from(PLAIN), st.sampled_from(TRICKY), _free, st.sampled_from(HIDDEN + PLAIN))
plain_component = st.one_of(st.sampled_from(PLAIN), st.sampled_from(PLAIN + HIDDEN + [t for t in TRICKY]))


def legal_root_entry(name):
    """may a tag file or directory with this name be in a bag's root?"""
    if name in ("data", "multibag") or name.startswith("~"):
        return False
    return not re.match(r"^(bagit\.txt|bag-info\.txt|fetch\.txt|(tag)?manifest-.*\.txt)\Z", name)


def resolve(paths):
    """drop, in order, the paths that conflict (file vs. directory, duplicates) with earlier ones"""
    files, dirs, out = set(), set(), []
    for p in paths:
        parts = p.split("/")
        anc = ["/".join(parts[:i]) for i in range(1, len(parts))]
        if p in files or p in dirs or any(a in files for a in anc):
            continue
        files.add(p)
        dirs.update(anc)
        out.append(p)
    return out


@st.composite
def paths(draw, min_files=0, max_files=10, tagfiles=True, comp=component):
    """(file paths, empty dirs): payload and tag files with shared prefixes"""
    ndirs = draw(st.integers(0, 4))
    pool = ["data"]
    for _ in range(ndirs):
        if len(pool) > 1 and draw(st.integers(0, 3)) == 0:
            # the name of another directory, and more
            pool.append(draw(st.sampled_from(pool[1:])) + draw(st.sampled_from(["2", "b", ".d", "-", " x"])))
            continue
        parent = draw(st.sampled_from(pool))
        pool.append(parent + "/" + draw(comp))
    tagpool = []
    if tagfiles and draw(st.booleans()):
        for _ in range(draw(st.integers(1, 2))):
            c = draw(comp)
            if legal_root_entry(c):
                tagpool.append(c)
        if draw(st.booleans()):
            tagpool.append(draw(st.sampled_from(["metadata", "datafiles", "dat", "data2", "multibag2"])))
        if tagpool and draw(st.booleans()):
            tagpool.append(tagpool[0] + "/" + draw(comp))
    files = []
    for _ in range(draw(st.integers(min_files, max_files))):
        if files and draw(st.integers(0, 9)) == 0:
            files.append(draw(st.sampled_from(files)) + draw(st.sampled_from(["2", "b", ".bak", " x"])))
            continue
        files.append(draw(st.sampled_from(pool)) + "/" + draw(comp))
    for d in tagpool:
        for _ in range(draw(st.integers(0, 2))):
            files.append(d + "/" + draw(comp))
    if tagfiles and draw(st.integers(0, 3)) == 0:
        c = draw(st.one_of(comp, st.sampled_from(ROOTLIKE)))
        if legal_root_entry(c):
            files.append(c)
    empt = []
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        empt.append(draw(st.sampled_from(pool + tagpool)) + "/" + draw(comp))
    files = resolve(files)
    fs = set(files)
    dirs = set()
    for f in files:
        ps = f.split("/")
        dirs.update("/".join(ps[:i]) for i in range(1, len(ps)))
    out = []
    for e in empt:
        ps = e.split("/")
        if e in fs or e in dirs or any("/".join(ps[:i]) in fs for i in range(1, len(ps))):
            continue
        out.append(e)
    out = resolve(out)
    return files, out


def lookalikes(files):
    """the directories (or files) whose names are the start of another's, for preferring them"""
    al = set(files)
    for f in files:
        ps = f.split("/")
        al.update("/".join(ps[:i]) for i in range(2, len(ps)))
    al = sorted(al)
    return [a for a in al if any(b != a and b.startswith(a) and b[len(a)] != "/" for b in al)]


# ---- sizes ---------------------------------------------------------------------------------
size = st.one_of(st.integers(0, 12), st.sampled_from([0, 1, 2, 5, 10, 10, 10, 50, 99, 100, 101]),
                 st.integers(0, 400))
ALGS = ["md5", "sha1", "sha256", "sha512", "sha384"]


@st.composite
def sized(draw, files, sizes=size, salts=st.integers(0, 3)):
    return [[p, draw(sizes), draw(salts)] for p in files]


# ---- bag-info -------------------------------------------------------------------------------
STD_TAGS = ["Source-Organization", "Contact-Name", "Bagging-Date", "Bag-Group-Identifier", "Bag-Size",
            "External-Identifier", "Internal-Sender-Identifier", "Internal-Sender-Description",
            "Bag-Count", "External-Description", "Contact-Email"]
OWN_TAGS = ["X-Custom", "Foo", "foo", "A-Tag", "Multi-Value", "Bag-Software-Agent", "Multibagger", "Externality"]
_value = st.one_of(
    st.sampled_from(["x", "10.5 kB", "goober", "id:1234", "http://a.b/c?d#e", "a: b", "2001-01-01", "long " * 30 + "end",
                     "1 of 3", "caf\u00e9", "a,b", "#no", "v1", "v2", "complies with nothing"]),
    st.text(alphabet=st.characters(codec="utf-8", categories=("L", "N", "P", "S", "Zs")), min_size=1, max_size=12)
      .map(lambda s: s.strip()).filter(lambda s: s and s == s.strip() and not re.search(r"[\u2028\u2029\x85]", s)))


@st.composite
def baginfo(draw, max_tags=6):
    out = []
    for _ in range(draw(st.integers(0, max_tags))):
        out.append([draw(st.one_of(st.sampled_from(STD_TAGS), st.sampled_from(OWN_TAGS))), draw(_value)])
    # BagIt has repeated tags; Bag-Size and Bag-Count are single valued in practice
    seen, res = set(), []
    for k, v in out:
        if k in ("Bag-Size", "Bag-Count", "Bagging-Date") and k in seen:
            continue
        seen.add(k)
        res.append([k, v])
    return res


# ---- bags ----------------------------------------------------------------------------------
bagname = st.one_of(st.sampled_from(["bag", "bag1", "mybag", "b.x", "sample.bag", "a b", "b\u00e9", "bag-1.0", "m_b"]))


@st.composite
def bag(draw, name=bagname, min_files=0, max_files=10, tagfiles=True, info="maybe", sizes=size,
        comp=component, multi=True, big=True, salts=st.integers(0, 3)):
    files, dirs = draw(paths(min_files, max_files, tagfiles, comp))
    fl = draw(sized(files, sizes, salts))
    if big and fl and draw(st.integers(0, 29)) == 0:
        fl[0][1] = draw(st.sampled_from([524288, 524289, 600000, 1100000, 4096, 65536]))
    algs = draw(st.one_of(st.just(["sha256"]), st.just(["md5"]),
                          st.lists(st.sampled_from(ALGS), min_size=1, max_size=3, unique=True),
                          st.permutations(ALGS).map(list))) if multi \
        else draw(st.sampled_from([["sha256"], ["md5"], ["md5", "sha256"]]))
    tm = draw(st.sampled_from(["same", "same", "none", "other"]))
    tagalgs = {"same": list(algs), "none": [], "other": [draw(st.sampled_from(ALGS))]}[tm]
    version = draw(st.sampled_from(["0.97", "0.97", "1.0"]))
    spec = {"name": draw(name) if hasattr(name, "example") else name, "files": fl, "dirs": dirs,
            "algs": algs, "tagalgs": tagalgs, "version": version,
            "sep": draw(st.sampled_from(["  ", " ", "  ", "\t"]))}
    spec["partial"] = bool(multi and version == "0.97" and len(algs) > 1 and draw(st.integers(0, 3)) == 0)
    if info == "maybe":
        spec["info"] = None if draw(st.integers(0, 11)) == 0 else draw(baginfo())
    elif info == "yes":
        spec["info"] = draw(baginfo())
    else:
        spec["info"] = info
    spec["oxum"] = spec["info"] is not None and draw(st.booleans())
    return spec


@st.composite
def crowded(draw, spec, lo=12, hi=40):
    """the bag with many more files, of repeating sizes"""
    n, m, k = draw(st.integers(lo, hi)), draw(st.integers(2, 40)), draw(st.integers(1, 37))
    nd = draw(st.integers(1, 4))
    top = set(f[0].split("/")[1] for f in spec["files"] if f[0].startswith("data/")) | \
        set(d.split("/")[1] for d in spec["dirs"] if d.startswith("data/"))
    ds = [d for d in ["q", "q1", "q2/r", "s"][:nd] if d.split("/")[0] not in top]
    if ds:
        spec["files"] = spec["files"] + [["data/%s/f%d" % (ds[i % len(ds)], i), (i * k + 3) % m, i % 3] for i in range(n)]
    return spec


def encodable(enc, *what):
    try:
        json.dumps(what, ensure_ascii=False).encode(enc)
        return True
    except UnicodeError:
        return False


@st.composite
def encoded(draw, spec, one_in=6):
    """the bag, perhaps, with another encoding or byte order marks in BagIt's own files"""
    k = draw(st.integers(0, one_in))
    if k == 0:
        enc = draw(st.sampled_from(["ISO-8859-1", "UTF-16", "utf-8", "us-ascii"]))
        if encodable(enc, spec["files"], spec["dirs"], spec["info"], spec.get("fetch")):
            spec["encoding"] = enc
    elif k == 1:
        spec["bom"] = draw(st.lists(st.sampled_from(["manifest", "tagmanifest"]), min_size=1, max_size=2, unique=True))
    return spec


def hexid(n):
    return st.integers(0, n)
