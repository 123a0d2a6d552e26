"""
Independent BagIt reading and writing: nothing in here uses the code under test.

A *bag spec* is plain data:
  {"name": str, "files": [[path, size, salt], ...], "dirs": [path, ...] (empty directories),
   "algs": [..], "tagalgs": [..], "version": "0.97"|"1.0", "info": [[k, v], ...] or None,
   "oxum": bool, "partial": bool, "fetch": [[url, len, path], ...], "sep": "  "|" "}
"""
import gzip, os, hashlib, io, re, zipfile, tarfile, stat

SPECIAL = re.compile(r"^(bagit\.txt|bag-info\.txt|fetch\.txt|(tag)?manifest-\w+\.txt)\Z")


def is_special(path):
    """one of BagIt's own files (these exist only in the root directory of a bag)"""
    return bool(SPECIAL.match(path))


def content(size, salt):
    """deterministic bytes"""
    if size <= 0:
        return b""
    seed = ("%s" % salt).encode("utf-8")
    block = hashlib.sha256(seed).digest() + b"\n\x00\r\n" + seed + b"-"
    reps = size // len(block) + 1
    return (block * reps)[:size]


def spec_files(spec):
    """{path: bytes} of the non-special files of a bag spec"""
    return {f[0]: content(f[1], f[2]) for f in spec["files"]}


def empty_dirs_of(files, dirs):
    """the directories that are empty, given file paths and directories to be created"""
    alld = set()
    for d in dirs:
        parts = d.split("/")
        for i in range(1, len(parts) + 1):
            alld.add("/".join(parts[:i]))
    for f in files:
        parts = f.split("/")[:-1]
        for i in range(1, len(parts) + 1):
            alld.add("/".join(parts[:i]))
    nonempty = set()
    for d in alld:
        if "/" in d:
            nonempty.add(d.rsplit("/", 1)[0])
    for f in files:
        if "/" in f:
            nonempty.add(f.rsplit("/", 1)[0])
    return alld - nonempty


def algs_for(spec, path):
    """the checksum algorithms recorded for a payload path"""
    algs = spec["algs"]
    if not spec.get("partial") or len(algs) < 2:
        return list(algs)
    h = int(hashlib.md5(path.encode("utf-8")).hexdigest(), 16)
    k = h % (2 ** len(algs) - 1) + 1
    return [a for i, a in enumerate(algs) if k & (1 << i)]


def write_file(path, data):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, "wb") as f:
        f.write(data)


def info_text(info, fold=None):
    """fold: what to continue values with after a space (e.g. a newline and spaces)"""
    def value(v):
        if fold:
            i = v.find(" ", len(v) // 3)
            if i > 0:
                v = v[:i] + fold + v[i:]
        return v
    return "".join("%s: %s\n" % (k, value(v)) for k, v in info)


def info_name(version):
    """the file of a bag's own information, which had another name in early versions of BagIt"""
    return "package-info.txt" if version in ("0.93", "0.94", "0.95") else "bag-info.txt"


def write_bag(root, spec, extra=None):
    """write the bag directory root/<name>; returns its path.
    extra: {path: bytes} further tag files (e.g. multibag/...)"""
    bd = os.path.join(root, spec["name"])
    enc = spec.get("encoding") or "UTF-8"
    bom = spec.get("bom") or []       # BagIt's own files that start with a byte order mark
    def text(name, t):
        return (b"\xef\xbb\xbf" if name in bom else b"") + t.encode(enc)
    os.makedirs(os.path.join(bd, "data"))
    files = spec_files(spec)
    for d in spec.get("dirs", []):
        os.makedirs(os.path.join(bd, d), exist_ok=True)
    for p, data in files.items():
        write_file(os.path.join(bd, p), data)
    for p, data in (extra or {}).items():
        write_file(os.path.join(bd, p), data)
    write_file(os.path.join(bd, "bagit.txt"),
               ("BagIt-Version: %s\nTag-File-Character-Encoding: %s\n" % (spec["version"], enc)).encode())
    sep = spec.get("sep", "  ")
    for a in spec["algs"]:
        lines = ["%s%s%s\n" % (hashlib.new(a, files[p]).hexdigest(), sep, p) for p in files
                 if p.startswith("data/") and a in algs_for(spec, p)]
        lines += ["%s%s%s\n" % (hashlib.new(a, f[0].encode()).hexdigest(), sep, f[2])
                  for f in spec.get("fetch") or [] if f[2] not in files and f[2].startswith("data/")]
        write_file(os.path.join(bd, "manifest-%s.txt" % a), text("manifest", "".join(lines)))
    if spec.get("fetch"):
        write_file(os.path.join(bd, "fetch.txt"), text("fetch", "\n".join("%s %s %s" % tuple(f) for f in spec["fetch"]) +
                                                       ("" if spec.get("nonl") else "\n")))
    if spec.get("info") is not None:
        info = [list(x) for x in spec["info"]]
        if spec.get("oxum"):
            pl = [len(files[p]) for p in files if p.startswith("data/")]
            info.append(["Payload-Oxum", "%d.%d" % (sum(pl), len(pl))])
        write_file(os.path.join(bd, info_name(spec["version"])), text("info", info_text(info, spec.get("fold"))))
    write_tagmanifests(bd, spec["tagalgs"], sep, enc, "tagmanifest" in bom)
    return bd


def write_tagmanifests(bd, algs, sep="  ", enc="UTF-8", bom=False):
    for a in algs:
        lines = []
        for root, dirs, fs in os.walk(bd):
            if root == bd:
                dirs[:] = [d for d in dirs if d != "data"]
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(root, f), bd)
                if re.match(r"tagmanifest-\w+\.txt\Z", p):
                    continue
                lines.append("%s%s%s\n" % (sha(os.path.join(bd, p), a), sep, p))
        write_file(os.path.join(bd, "tagmanifest-%s.txt" % a), (b"\xef\xbb\xbf" if bom else b"") + "".join(sorted(lines)).encode(enc))


def sha(path, alg="sha256"):
    h = hashlib.new(alg)
    with open(path, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            h.update(b)
    return h.hexdigest()


def tree(bd):
    """({file path: bytes}, {all directory paths}) of a directory"""
    files, dirs = {}, set()
    for root, ds, fs in os.walk(bd):
        rel = os.path.relpath(root, bd)
        rel = "" if rel == "." else rel + "/"
        for d in ds:
            dirs.add(rel + d)
        for f in fs:
            with open(os.path.join(root, f), "rb") as fd:
                files[rel + f] = fd.read()
    return files, dirs


def source(bd, spec):
    """tree() of a bag written from a spec, with BagIt's own files as UTF-8 text without byte order marks"""
    files, dirs = tree(bd)
    enc = spec.get("encoding") or "UTF-8"
    for p in files:
        if is_special(p) and p != "bagit.txt":
            files[p] = files[p].decode(enc).lstrip("\ufeff").encode("utf-8")
    return files, dirs


def nonspecial(files):
    return {p: b for p, b in files.items() if not is_special(p)}


def empties(files, dirs):
    return empty_dirs_of(files, dirs)


def snapshot(path):
    """everything observable about a tree (or file): types, bytes, permissions and mtimes"""
    out = {}
    def one(p, rel):
        st = os.lstat(p)
        if stat.S_ISDIR(st.st_mode):
            out[rel] = ("d", st.st_mode, st.st_mtime_ns)
        elif stat.S_ISLNK(st.st_mode):
            out[rel] = ("l", os.readlink(p))
        else:
            with open(p, "rb") as f:
                out[rel] = ("f", st.st_mode, st.st_mtime_ns, hashlib.sha256(f.read()).hexdigest(), st.st_size)
    one(path, ".")
    if os.path.isdir(path):
        for root, ds, fs in os.walk(path):
            for n in ds + fs:
                p = os.path.join(root, n)
                one(p, os.path.relpath(p, path))
    return out


def snapdiff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append("%s: %s -> %s" % (k, a.get(k), b.get(k)))
    return out


# ---------------------------------------------------------------- reading

def parse_manifest(data):
    """[(hash, path), ...] of manifest file bytes"""
    out = []
    for line in data.decode("utf-8-sig").split("\n"):
        line = line.strip("\r \t")
        if not line or line.startswith("#"):
            continue
        m = re.match(r"^(\S+)[ \t]+(.*)\Z", line)
        if not m:
            out.append(("", line))
            continue
        h, p = m.groups()
        if p.startswith("*"):
            p = p[1:]
        out.append((h, p))
    return out


def manifests(files, kind="manifest"):
    """{alg: {path: hash}} from a {path: bytes} tree; duplicates are reported in dups"""
    out, dups = {}, []
    for p in files:
        m = re.match(r"^%s-(\w+)\.txt\Z" % kind, p)
        if m:
            d = out.setdefault(m.group(1), {})
            for h, f in parse_manifest(files[p]):
                if f in d:
                    dups.append((p, f))
                d[f] = h.lower()
    return out, dups


def parse_info(data):
    """ordered [(name, value), ...] of bag-info bytes (folded lines joined, runs of blanks as one)"""
    out = []
    for line in data.decode("utf-8").split("\n"):
        line = line.rstrip("\r")
        if not line.strip():
            continue
        if line[0] in " \t" and out:
            out[-1] = (out[-1][0], out[-1][1] + " " + line.strip())
        else:
            k, _, v = line.partition(":")
            out.append((k.strip(), v.strip()))
    return [(k, re.sub("[ \t]+", " ", v)) for k, v in out]


def info_dict(pairs):
    """{name: [values in order]}"""
    out = {}
    for k, v in pairs:
        out.setdefault(k, []).append(v)
    return out


def bag_problems(bd=None, files=None, dirs=None, allow_fetch=True):
    """independent BagIt validation of a directory; [] if valid"""
    if files is None:
        files, dirs = tree(bd)
    probs = []
    if "bagit.txt" not in files:
        return ["no bagit.txt"]
    t = info_dict(parse_info(files["bagit.txt"]))
    if not re.match(r"^\d+\.\d+\Z", (t.get("BagIt-Version") or [""])[0]):
        probs.append("bad bagit.txt: %r" % files["bagit.txt"])
    enc = (t.get("Tag-File-Character-Encoding") or [""])[0]
    try:
        files = dict(files)
        for p in list(files):
            if is_special(p) and enc.upper() != "UTF-8":
                files["/" + p] = files[p]
                files[p] = files[p].decode(enc).encode("utf-8")
    except (LookupError, UnicodeError) as ex:
        return ["bagit.txt says the encoding is %r: %s" % (enc, ex)]
    if "data" not in dirs:
        probs.append("no data directory")
    fetch = set()
    if allow_fetch and "fetch.txt" in files:
        for line in files["fetch.txt"].decode("utf-8").split("\n"):
            if line.strip():
                fetch.add(line.strip().split(None, 2)[2])
    pm, dups = manifests(files)
    tm, dups2 = manifests(files, "tagmanifest")
    for d in dups + dups2:
        probs.append("%s lists %s more than once" % d)
    if not pm:
        probs.append("no payload manifest")
    listed = set()
    for alg, ent in pm.items():
        for p, h in ent.items():
            listed.add(p)
            if not p.startswith("data/"):
                probs.append("manifest-%s lists non-payload %s" % (alg, p))
            elif p not in files:
                if p not in fetch:
                    probs.append("manifest-%s lists missing %s" % (alg, p))
            elif hashlib.new(alg, files[p]).hexdigest() != h:
                probs.append("manifest-%s: checksum of %s does not match" % (alg, p))
    for p in files:
        if p.startswith("data/") and p not in listed:
            probs.append("payload file %s is in no manifest" % p)
    for alg, ent in tm.items():
        for p, h in ent.items():
            if p not in files:
                probs.append("tagmanifest-%s lists missing %s" % (alg, p))
            elif hashlib.new(alg, files.get("/" + p, files[p])).hexdigest() != h:
                probs.append("tagmanifest-%s: checksum of %s does not match" % (alg, p))
    if "bag-info.txt" in files:
        inf = info_dict(parse_info(files["bag-info.txt"]))
        if inf.get("Payload-Oxum"):
            pl = [len(files[p]) for p in files if p.startswith("data/")]
            if inf["Payload-Oxum"] != ["%d.%d" % (sum(pl), len(pl))]:
                probs.append("Payload-Oxum %s is not %d.%d" % (inf["Payload-Oxum"], sum(pl), len(pl)))
    return probs


def loc_problem(bd):
    """verdict of the LOC bagit library on a directory (None if valid)"""
    import bagit
    try:
        bagit.Bag(bd).validate()
        return None
    except bagit.BagError as ex:
        return "%s: %s" % (type(ex).__name__, ex)


# ---------------------------------------------------------------- serialization

SERS = [".zip", ".tar", ".tar.gz", ".tar.bz2", ".tgz"]


def serialize(bd, dest, ext, direntries=True, prefix="", arcname=None):
    """write bag directory bd as the archive dest+ext; returns the archive's path"""
    fn = dest + ext
    name = arcname or os.path.basename(bd)
    ents = []
    for root, ds, fs in os.walk(bd):
        ds.sort()
        rel = os.path.relpath(root, bd)
        rel = "" if rel == "." else rel
        isempty = not ds and not fs
        if direntries or isempty:
            ents.append((os.path.join(prefix + name, rel).rstrip("/"), root, True))
        for f in sorted(fs):
            ents.append((os.path.join(prefix + name, rel, f), os.path.join(root, f), False))
    if ext == ".zip":
        with zipfile.ZipFile(fn, "w", zipfile.ZIP_DEFLATED) as z:
            for arc, src, isd in ents:
                if isd:
                    z.writestr(zipfile.ZipInfo(arc + "/", (2020, 1, 1, 0, 0, 0)), b"")
                else:
                    zi = zipfile.ZipInfo(arc, (2020, 1, 1, 0, 0, 0))
                    zi.compress_type = zipfile.ZIP_DEFLATED
                    zi.external_attr = 0o644 << 16
                    with open(src, "rb") as f:
                        z.writestr(zi, f.read())
    else:
        mode = {".tar": "w", ".tar.gz": "w:gz", ".tgz": "w:gz", ".tar.bz2": "w:bz2"}[ext]
        gz = None
        if mode == "w:gz":
            # (no time of day in the file's header)
            gz = gzip.GzipFile("", "wb", fileobj=open(fn, "wb"), mtime=0)
        with (tarfile.open(fileobj=gz, mode="w", format=tarfile.PAX_FORMAT) if gz else
              tarfile.open(fn, mode, format=tarfile.PAX_FORMAT)) as t:
            for arc, src, isd in ents:
                t.add(src, arcname=arc, recursive=False)
        if gz:
            raw = gz.fileobj
            gz.close()
            raw.close()
    return fn
