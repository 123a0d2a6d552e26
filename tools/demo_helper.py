"""Helpers of the demonstration: makes bags by hand, in a scratch directory that is removed."""
import atexit, hashlib, io, os, shutil, sys, tarfile, tempfile, zipfile

sys.path.insert(0, os.getcwd())
import logging
logging.disable(logging.CRITICAL)

def scratch():
    d = os.path.realpath(tempfile.mkdtemp(prefix="demo-"))
    atexit.register(shutil.rmtree, d, True)
    return d

def put(root, path, data):
    if not isinstance(data, bytes):
        data = data.encode("utf-8")
    p = os.path.join(root, path)
    if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
    with open(p, "wb") as fd:
        fd.write(data)
    return p

def digest(root, path, alg):
    with open(os.path.join(root, path), "rb") as fd:
        return hashlib.new(alg, fd.read()).hexdigest()

def tree(root):
    """the files below a directory, as {path: bytes}"""
    out = {}
    for d, subdirs, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fd:
                out[os.path.relpath(p, root)] = fd.read()
    return out

def dirs(root):
    return sorted(os.path.relpath(os.path.join(d, s), root)
                  for d, subdirs, files in os.walk(root) for s in subdirs)

def manifests(bagdir, algs=("sha256",), version="0.97"):
    """(re-)write the manifests of a bag"""
    std = ("bagit.txt", "bag-info.txt", "fetch.txt")
    for f in os.listdir(bagdir):
        if f.startswith("manifest-") or f.startswith("tagmanifest-"):
            os.remove(os.path.join(bagdir, f))
    files = sorted(tree(bagdir))
    for alg in algs:
        with io.open(os.path.join(bagdir, "manifest-%s.txt" % alg), "w", encoding="utf-8") as fd:
            for f in files:
                if f.startswith("data/"):
                    fd.write(u"%s  %s\n" % (digest(bagdir, f, alg), f))
    for alg in algs:
        with io.open(os.path.join(bagdir, "tagmanifest-%s.txt" % alg), "w", encoding="utf-8") as fd:
            for f in sorted(tree(bagdir)):
                if not f.startswith("data/") and not f.startswith("tagmanifest-"):
                    fd.write(u"%s  %s\n" % (digest(bagdir, f, alg), f))

def mkbag(bagdir, files, info=(), algs=("sha256",), emptydirs=(), version="0.97", oxum=True):
    """make a valid bag out of {path: content}; info: (tag, value) pairs"""
    os.makedirs(os.path.join(bagdir, "data"))
    for f in files:
        put(bagdir, f, files[f])
    for d in emptydirs:
        os.makedirs(os.path.join(bagdir, d))
    put(bagdir, "bagit.txt",
        "BagIt-Version: %s\nTag-File-Character-Encoding: UTF-8\n" % version)
    info = list(info)
    if oxum:
        pay = [f for f in tree(bagdir) if f.startswith("data/")]
        info.append(("Payload-Oxum", "%d.%d" % (
            sum(os.path.getsize(os.path.join(bagdir, f)) for f in pay), len(pay))))
    put(bagdir, "bag-info.txt", "".join("%s: %s\n" % i for i in info))
    manifests(bagdir, algs)
    return bagdir

def mkhead(bagdir, files, members, lookup=None, deleted=(), info=(), version="1", **kw):
    """make a head bag"""
    files = dict(files)
    files["multibag/member-bags.tsv"] = "".join("%s\n" % m for m in members)
    if lookup is None:
        lookup = {}
    files["multibag/file-lookup.tsv"] = "".join("%s\t%s\n" % (f, lookup[f]) for f in lookup)
    if deleted:
        files["multibag/deleted.txt"] = "".join("%s\n" % f for f in deleted)
    info = list(info) + [("Multibag-Version", "0.4"),
                         ("Multibag-Reference", "https://example.org/multibag"),
                         ("Multibag-Tag-Directory", "multibag"),
                         ("Multibag-Head-Version", version)]
    return mkbag(bagdir, files, info, **kw)

def zipped(bagdir, dest=None):
    dest = dest or bagdir + ".zip"
    name = os.path.basename(bagdir)
    with zipfile.ZipFile(dest, "w") as z:
        z.write(bagdir, name + "/")
        for d, subdirs, files in os.walk(bagdir):
            rel = os.path.relpath(d, bagdir)
            for s in subdirs:
                z.write(os.path.join(d, s), os.path.normpath(os.path.join(name, rel, s)) + "/")
            for f in files:
                z.write(os.path.join(d, f), os.path.normpath(os.path.join(name, rel, f)))
    return dest

def tarred(bagdir, dest=None, mode="w"):
    dest = dest or bagdir + ".tar"
    with tarfile.open(dest, mode) as t:
        t.add(bagdir, os.path.basename(bagdir))
    return dest

def tags(path):
    out = []
    with io.open(path, encoding="utf-8") as fd:
        for line in fd:
            if line[:1].isspace() and out:
                out[-1] = (out[-1][0], out[-1][1] + " " + line.strip())
            elif ":" in line:
                k, v = line.split(":", 1)
                out.append((k.strip(), v.strip()))
    return out

def bagvalid(path):
    import bagit
    bagit.Bag(path).validate()

def lines(path):
    with io.open(path, encoding="utf-8") as fd:
        return [l.rstrip("\n") for l in fd]
