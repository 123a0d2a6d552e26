"""head and member bag validators"""
import os, re
from urllib.parse import urlparse
from hypothesis import strategies as st
from .. import bags, gens, headgen
from ..engine import fail, require

ID, LEVEL = "C14", "exploration"
CASES = {"quick": 3200, "thorough": 100000}
RULE = ("case = a compliant head bag (profile 0.2, 0.3 or 0.4) x 0-4 departures out of 40 kinds; the set of failed (severity, rule) pairs of "
        "the head bag validator is compared, for a directory and one serialized form, with an evaluator of the profile's rules written "
        "from its text; a second bag is put to the member bag validator; non-trivial: at least one departure; distinct by case hash")
ERR, WARN, REC = 1, 2, 4

DEPART = ["nover", "emptyver", "repver", "noref", "emptyref", "relref", "badref", "repref", "emptytd", "reptd", "missingtd", "filetd", "notd", "rmtd",
          "nohv", "emptyhv", "rephv", "dep", "depname", "dep2", "emptydep", "depfmt", "depself", "depselfname", "depselflater",
          "noisi", "emptyisi", "repisi", "repisiempty", "nomembers", "namelessmember", "badurl", "badurl2", "okurl", "noself", "selfnotlast",
          "selffirst", "dupmember", "dupself", "nolookup", "lu1field", "lu3field", "luempty", "lumissing", "ludir", "ludup", "luunlisted", "lutag",
          "badagg", "okagg", "invalidbag", "blank", "nonhead", "luemptyfile", "memempty", "longmember", "lumany", "dupmany"]


@st.composite
def strategy(draw):
    spec = draw(gens.bag(max_files=5, min_files=draw(st.sampled_from([0, 1, 1])), info=[], big=False, multi=False,
                         comp=st.one_of(st.sampled_from([".h", "_u", "x.d", "y y"]), gens.component)))
    ver = draw(st.sampled_from(["0.4", "0.4", "0.4", "0.3", "0.2"]))
    h = draw(headgen.head(spec["name"]))
    n = draw(st.sampled_from([0, 1, 1, 1, 1, 2, 2, 3, 4]))
    dep = draw(st.lists(st.tuples(st.sampled_from(DEPART), st.integers(0, 9)).map(list), min_size=n, max_size=n))
    return {"bag": spec, "ver": ver, "head": h, "dep": dep, "ext": draw(st.sampled_from(bags.SERS)),
            "de": draw(st.booleans()), "mem": draw(st.sampled_from(["plain", "ver", "ver", "dep", "td", "tdir", "tdir2", "tdrep", "head", "02", "damaged"])),
            "want": draw(st.integers(1, 7)),
            "name": draw(st.sampled_from(["m", "m b", " m", "m ", "a\tb", "m\u00a0", "\t", "a\t"]))}


class State(object):
    def __init__(self, case):
        spec, h = case["bag"], case["head"]
        self.name = spec["name"]
        self.v2 = case["ver"] == "0.2"
        self.td = h["tagdir"] or "multibag"
        self.info = [["Multibag-Version", case["ver"]], ["Multibag-Head-Version", h["version"]],
                     ["Multibag-Reference", "https://github.com/usnistgov/multibag-py"],
                     ["Internal-Sender-Identifier", "id"], ["Internal-Sender-Description", "a description"],
                     ["Bag-Group-Identifier", "grp"]]
        if h["tagdir"]:
            self.info.append(["Multibag-Tag-Directory", h["tagdir"]])
        mems = [m for m in h["members"]]
        self.payload = [f[0] for f in spec["files"] if f[0].startswith("data/")]
        if self.v2:
            # version 0.2 has no way of writing names with spaces
            self.members = [m[0] + (" " + m[1] if m[1] else "") for m in mems]
            self.lookup = ["%s %s" % (p, self.name) for p in self.payload]
        else:
            self.members = [m[0] + ("\t" + m[1] if m[1] else "") + ("\t# " + m[2] if m[2] else "") for m in mems]
            self.lookup = ["%s\t%s" % (p, self.name) for p in self.payload]
            self.lookup += ["%s\t%s" % (p, b) for p, b in h["lookup"] if b != self.name and p not in self.payload]
        self.agg = None
        self.nomem = self.nolu = self.notddir = self.tdfile = False
        self.invalid = None
        self.others = {}

    def tag(self, k):
        return [v for a, v in self.info if a == k]

    def drop(self, k):
        self.info = [x for x in self.info if x[0] != k]

    def set(self, k, *vals):
        self.drop(k)
        self.info += [[k, v] for v in vals]


def depart(s, kind, i):
    sep = " " if s.v2 else "\t"
    REF, TD, HV, DEP = "Multibag-Reference", "Multibag-Tag-Directory", "Multibag-Head-Version", "Multibag-Head-Deprecates"
    TAGS = ["Internal-Sender-Identifier", "Internal-Sender-Description", "Bag-Group-Identifier"]
    hv = (s.tag(HV) or ["1"])[-1]
    last = (s.tag("Multibag-Version") or ["0.4"])[-1] or "0.4"
    if kind.startswith("dep") and "" in s.tag(DEP):
        s.drop(DEP)         # (what an empty value means among others is not said anywhere)
    if kind == "nover": s.drop("Multibag-Version")
    elif kind == "emptyver": s.set("Multibag-Version", "")
    elif kind == "repver": s.set("Multibag-Version", ["0.4", "0.2", "0.3", last][i % 4], last)
    elif kind == "noref": s.drop(REF)
    elif kind == "emptyref": s.set(REF, "")
    elif kind == "relref": s.set(REF, ["multibag.html", "/a/b", "github.com/x", "file:multibag"][i % 4])
    elif kind == "badref": s.set(REF, ["http://", "http:///x", "://x.y/", "http://[x/"][i % 4])
    elif kind == "repref": s.set(REF, *[["http://a.b/", ""], ["", "http://a.b/"], ["http://a.b/", "x"], ["x", "ftp://a/b"]][i % 4])
    elif kind == "emptytd": s.set(TD, "")
    elif kind == "reptd": s.set(TD, *[["nosuch", s.td], [s.td, s.td], [s.td, "nosuch"], ["", s.td]][i % 4])
    elif kind == "missingtd": s.set(TD, ["nosuch", s.td + "x", "data/../" + s.td + "y", "mbag/none"][i % 4])
    elif kind == "filetd": s.set(TD, "bag-info.txt")
    elif kind == "notd": s.drop(TD)
    elif kind == "rmtd": s.notddir = True
    elif kind == "nohv": s.drop(HV)
    elif kind == "nonhead":
        for k in ("Multibag-Version", HV, REF, TD, DEP):
            s.drop(k)
        s.notddir = True
    elif kind == "emptyhv": s.set(HV, "")
    elif kind == "rephv": s.set(HV, *[["0", hv], [hv, hv], [hv, ""], ["", hv]][i % 4])
    elif kind == "dep": s.info.append([DEP, ["0.5", "0.5,goob", "0.5 , goob", hv + ".1"][i % 4]])
    elif kind == "depname": s.info.append([DEP, "0.1, %sx" % s.name])
    elif kind == "dep2": s.info += [[DEP, "0.5"], [DEP, "0.6,b"]]
    elif kind == "emptydep": s.set(DEP, "")
    elif kind == "depfmt": s.info.append([DEP, ["0.5,a,b", "1,2,3,4", "0.5,,"][i % 3]])
    elif kind == "depself": s.info.append([DEP, [hv, hv + ",goob", hv + " , x"][i % 3]])
    elif kind == "depselfname": s.info.append([DEP, ["0.5,%s" % s.name, "0.5 ,  %s" % s.name][i % 2]])
    elif kind == "depselflater": s.info += [[DEP, "0.1"], [DEP, hv if i % 2 else "0.2," + s.name], [DEP, "0.3"]]
    elif kind == "noisi": s.drop(TAGS[i % 3])
    elif kind == "emptyisi": s.set(TAGS[i % 3], "")
    elif kind == "repisi": s.set(TAGS[i % 3], "a", "b")
    elif kind == "repisiempty": s.set(TAGS[i % 3], *(["", "b"] if i % 2 else ["a", ""]))
    elif kind == "nomembers": s.nomem = True
    elif kind == "namelessmember":
        if not s.v2: s.members.insert(i % (len(s.members) + 1), ["\thttp://a.b/c", " \t", "\t# x"][i % 3] if i % 3 != 1 else " \thttp://a.b/")
        else: s.members.insert(0, "bagx http://a.b/ extra")
    elif kind == "badurl": s.members.insert(0, "other%d%s%s" % (i, sep, ["nourl", "a/b.zip", "www.x.org/b.zip", "//x/y", "http//x.y"][i % 5]))
    elif kind == "badurl2": s.members.insert(0, "oth%d%s%s" % (i, sep, ["http://[1/", "://x", "1x"][i % 3]))
    elif kind == "okurl": s.members.insert(0, "okb%d%s%s" % (i, sep, ["file:///a/b", "doi:10.1/2", "HTTP://X.Y", "s3://x/y"][i % 4]))
    elif kind == "noself": s.members = [m for m in s.members if re.split(r"[ \t]" if s.v2 else r"\t", m)[0].strip() != s.name]
    elif kind == "selfnotlast": s.members.append("later%d" % i)
    elif kind == "selffirst": s.members = s.members[-1:] + s.members[:-1]
    elif kind == "dupmember":
        s.members = ["dup", "dup"] + s.members if i % 2 else ["dup", "mid" + sep + "urn:x", "dup"] + s.members
    elif kind == "dupself": s.members.insert(0, s.name)
    elif kind == "nolookup": s.nolu = True
    elif kind == "lu1field": s.lookup.insert(i % (len(s.lookup) + 1), "data/zzz")
    elif kind == "lu3field": s.lookup.append(sep.join(["data/zzz3", "other", "more"]))
    elif kind == "luempty":
        if not s.v2: s.lookup.append(["data/zz\t", "\tother", "data/zz2\t \t"][i % 3])
    elif kind == "lumissing": s.lookup.append(sep.join(["data/notthere%d" % i, s.name]))
    elif kind == "ludir": s.lookup.append(sep.join(["data", s.name]))
    elif kind == "lutag": s.lookup.append(sep.join([["bagit.txt", "bag-info.txt"][i % 2], s.name]))
    elif kind == "ludup":
        if s.lookup: s.lookup.append(s.lookup[i % len(s.lookup)])
        else: s.lookup += [sep.join(["data/e", "other"]), sep.join(["data/e", "other2"])]
    elif kind == "luunlisted":
        if s.lookup: del s.lookup[i % len(s.lookup)]
    elif kind == "luemptyfile": s.lookup = []
    elif kind == "lumany":
        k = i % (len(s.lookup) + 1)
        s.lookup[k:k] = [sep.join(["data/many%d%d" % (i, n), s.name]) for n in range(3 + i % 4)]
    elif kind == "dupmany": s.members[0:0] = ["dup%d" % i] * (3 + i % 5)
    elif kind == "memempty": s.members = []
    elif kind == "longmember":
        if not s.v2: s.members.insert(0, "long\thttp://a.b/c\textra\tmore\t# comm\tent")
    elif kind == "badagg": s.agg = ["no colon here\n", "A: b\nnone\n", "A b c\n"][i % 3]
    elif kind == "okagg": s.agg = ["", "A: b\n", "A: b\n  continued\nC: d\n", "A:\n"][i % 4]
    elif kind == "invalidbag": s.invalid = i
    elif kind == "blank":
        s.members.insert(i % (len(s.members) + 1), "")
        s.lookup.insert(i % (len(s.lookup) + 1), "  ")
    else: raise AssertionError(kind)


def write(s, case, root):
    spec = dict(case["bag"], info=s.info)
    extra = {}
    mf, lf = ("group-members.txt", "group-directory.txt") if s.v2 else ("member-bags.tsv", "file-lookup.tsv")
    if not s.notddir:
        if not s.nomem:
            extra[s.td + "/" + mf] = "".join(m + "\n" for m in s.members).encode("utf-8")
        if not s.nolu:
            extra[s.td + "/" + lf] = "".join(m + "\n" for m in s.lookup).encode("utf-8")
        if s.agg is not None:
            extra[s.td + "/aggregation-info.txt"] = s.agg.encode("utf-8")
        extra[s.td + "/note"] = b"x"
    bd = bags.write_bag(root, spec, extra)
    if s.invalid is not None:
        pl = s.payload
        if s.invalid % 3 == 0 and pl:
            with open(os.path.join(bd, pl[s.invalid % len(pl)]), "ab") as f:
                f.write(b"damage")
        elif s.invalid % 3 == 1:
            bags.write_file(os.path.join(bd, "data", "not-listed-%d" % s.invalid), b"")
            s.payload = s.payload + ["data/not-listed-%d" % s.invalid]
        else:
            with open(os.path.join(bd, "manifest-%s.txt" % spec["algs"][0]), "a") as f:
                f.write("%s  data/gone\n" % ("0" * 32))
    return bd


def scheme(u):
    try:
        return urlparse(u)
    except ValueError:
        return urlparse("")


def expected(s, bd):
    """the rules of the profile: set of (severity, label) that fail"""
    files, dirs = bags.tree(bd)
    out = set()
    bad = lambda sev, lab, cond: out.add((sev, lab)) if cond else None
    s.lines = {}            # the lines at fault, by rule
    at = lambda n, lab, cond: s.lines.setdefault(lab, []).append(n) if cond else None
    bad(ERR, "2-Bag", s.invalid is not None)
    t = s.tag
    v = t("Multibag-Version")
    if not v or v == [""]:
        bad(ERR, "3-Version", True)
    else:
        bad(WARN, "3-Version", len(v) > 1)
    ver = v[-1] if v else None
    r = t("Multibag-Reference")
    if not r or r == [""]:
        bad(REC, "3-Reference", True)
    else:
        u = scheme(r[-1])
        bad(ERR, "3-Reference-val", not (u.scheme and u.netloc))
    td = t("Multibag-Tag-Directory")
    if td:
        bad(ERR, "3-Tag-Directory", not td[-1] or len(td) > 1 or os.path.normpath(td[-1]) not in dirs)
    else:
        bad(ERR, "3-Tag-Directory", "multibag" not in dirs)
    mdir = os.path.normpath((td[-1] if td else "") or "multibag")
    hv = t("Multibag-Head-Version")
    if not hv:
        bad(ERR, "3-Head-Version", True)
    else:
        bad(WARN, "3-Head-Version_nonempty", not hv[-1])
        bad(WARN, "3-Head-Version_single", len(hv) > 1)
    d = t("Multibag-Head-Deprecates")
    if d:
        if d == [""]:
            bad(WARN, "3-Head-Deprecates_notempty", True)
        else:
            parts = [[p.strip() for p in x.split(",")] for x in d]
            bad(ERR, "3-Head-Deprecates_format", any(len(p) > 2 for p in parts))
            bad(WARN, "3-Head-Deprecates_notselfdep",
                any((hv and hv[-1] and p[0] == hv[-1]) or (len(p) > 1 and p[1] == s.name) for p in parts))
    for el in ("Internal-Sender-Identifier", "Internal-Sender-Description", "Bag-Group-Identifier"):
        x = t(el)
        if not x or not x[-1]:
            bad(REC, "3-2", True)
        else:
            bad(ERR, "3-2", not all(x))
    v2 = ver == "0.2"
    if mdir not in dirs:
        bad(ERR, "3-Tag-Directory", True)
        return out
    split = (lambda l: l.split()) if v2 else (lambda l: [x.strip() for x in l.split("\t")])
    mf = mdir + ("/group-members.txt" if v2 else "/member-bags.tsv")
    lf = mdir + ("/group-directory.txt" if v2 else "/file-lookup.tsv")
    if mf not in files:
        bad(ERR, "4.0-1", True)
    else:
        names = []
        for n, line in enumerate(files[mf].decode("utf-8").split("\n"), 1):
            if not line.strip():
                continue
            p = split(line)
            if v2:
                at(n, "4.1-1", len(p) > 2)
            elif not p[0]:
                at(n, "4.1-1", True)
                continue
            at(n, "4.1-5", p[0] in names)
            names.append(p[0])
            if len(p) > 1 and p[1] and (v2 or not p[1].startswith("#")):
                at(n, "4.1-2", not scheme(p[1]).scheme)
        bad(ERR, "4.1-1", "4.1-1" in s.lines)
        bad(ERR, "4.1-2", "4.1-2" in s.lines)
        bad(ERR, "4.1-3", s.name not in names)
        bad(ERR, "4.1-4", not names or names[-1] != s.name)
        bad(WARN, "4.1-5", len(set(names)) != len(names))
    if lf not in files:
        bad(ERR, "4.0-2", True)
    else:
        paths = []
        for n, line in enumerate(files[lf].decode("utf-8").split("\n"), 1):
            if not line.strip():
                continue
            p = split(line)
            at(n, "4.2-1", len(p) != 2 or not all(p))
            at(n, "4.2-2", len(p) > 1 and p[1] == s.name and p[0] not in files)
            at(n, "4.2-3", p[0] in paths)
            paths.append(p[0])
        bad(ERR, "4.2-1", "4.2-1" in s.lines)
        bad(ERR, "4.2-2", "4.2-2" in s.lines)
        bad(WARN, "4.2-3", len(set(paths)) != len(paths))
        bad(REC, "4.2-4", any(f not in paths and f.rsplit("/", 1)[-1][0] not in "._" for f in s.payload))
    if ver not in ("0.2", "0.3") and s.agg is not None and mdir + "/aggregation-info.txt" in files:
        lines = [l for l in s.agg.split("\n") if l.strip()]
        bad(ERR, "4.4-1", any(":" not in l and l[0] not in " \t" for l in lines))
    return out


def show(x):
    return sorted({ERR: "error", WARN: "warning", REC: "recommendation"}[a] + " " + b for a, b in x)


def failing(res):
    out = set()
    for sev in (ERR, WARN, REC):
        for x in res.failed(sev):
            require(x.type == sev, "an issue recorded as severity %r says it is %r", sev, x.type)
            out.add((sev, x.label))
    return out


def located(res, lines, what):
    """the comments name the lines that are at fault (the first ones, when there are many)"""
    for x in res.failed():
        if x.label not in lines:
            continue
        want, text = lines[x.label], " ".join(x.comments)
        got = [int(n) for n in re.findall(r"\d+", text)]
        require(got == want if len(want) < 5 else got and got == want[:len(got)],
                "head bag %s: the comments of %s name the lines %r (%r); those at fault are %r", what, x.label, got, text, want)


def check(case, ctx):
    from multibag.validate import HeadBagValidator, validate_headbag, MultibagValidationError, ALL, PROB
    s = State(case)
    if s.v2 and (re.search(r"\s", s.name) or any(re.search(r"\s", p) for p in s.payload) or
                 any(re.search(r"\s", m[0]) for m in case["head"]["members"])):
        case = dict(case, ver="0.3")
        s = State(case)
    for k, i in case["dep"]:
        depart(s, k, i)
        ctx.tag(k)
    if not case["dep"]:
        ctx.tag("compliant")
    ctx.nontrivial(bool(case["dep"]))
    bd = write(s, case, ctx.dirpath("h"))
    want = expected(s, bd)
    if not case["dep"]:
        require(not want, "(check) a compliant bag is not: %s", show(want))
    z = bags.serialize(bd, ctx.dirpath(s.name), case["ext"], case["de"])
    prob = bool([x for x in want if x[0] != REC])
    for what, loc in (("as a directory", bd), ("serialized as " + case["ext"], z)):
        res = HeadBagValidator(loc).validate(ALL)
        got = failing(res)
        require(got == want, "head bag %s with departures %r: the validator reports %s; the profile's rules broken are %s",
                what, case["dep"], show(got), show(want))
        located(res, s.lines, what)
        if (loc == bd) == bool(case.get("want", ALL) % 2):
            some_kinds(loc, what, case, want)
        require(HeadBagValidator(loc).is_valid() == (not prob), "head bag %s: is_valid() is %r with %s", what, not prob, show(want))
    try:
        validate_headbag(bd)
        r = False
    except MultibagValidationError:
        r = True
    require(r == prob, "validate_headbag() %s with %s", "raised" if r else "did not raise", show(want))
    member(case, ctx)


def some_kinds(loc, what, case, want):
    """validation for some of the kinds of issues only"""
    from multibag.validate import HeadBagValidator, MultibagValidationError, ALL
    w = case.get("want", ALL)
    hv = HeadBagValidator(loc)
    res = hv.validate(w)
    some = set(x for x in want if x[0] & w)
    got = set(x for x in failing(res) if x[0] & w)
    require(got == some, "head bag %s with departures %r: validate(%d) reports %s; the profile's rules broken are %s",
            what, case["dep"], w, show(got), show(some))
    require(res.ok() == (not some), "head bag %s: validate(%d).ok() is %r with %s", what, w, res.ok(), show(some))
    require(hv.is_valid(w) == (not some), "head bag %s: is_valid(%d) is %r with %s", what, w, bool(some), show(some))
    try:
        hv.ensure_valid(w)
        r = False
    except MultibagValidationError:
        r = True
    require(r == bool(some), "head bag %s: ensure_valid(%d) %s with %s", what, w, "raised" if r else "did not raise", show(some))


def member(case, ctx):
    from multibag.validate import MemberBagValidator, ALL
    from multibag.validate.base import ValidationResults
    kind = case["mem"]
    spec = dict(case["bag"], name=case["name"])
    info, extra, want, ntd = [["Multibag-Version", "0.4"]], {}, set(), None
    if kind == "plain":
        info = []
        want.add((REC, "3-Version-for-member"))
    elif kind == "02":
        info = [["Multibag-Version", "0.2"]]
    elif kind == "dep":
        info.append(["Multibag-Head-Deprecates", "1"])
        want.add((WARN, "2-Head-Deprecates"))
    elif kind == "td":
        info.append(["Multibag-Tag-Directory", "nothere"])
        want.add((WARN, "2-Tag-Directory"))
    elif kind == "tdir":
        extra["multibag/x"] = b""
        want.add((WARN, "2-Tag-Directory"))
    elif kind == "tdir2":
        info.append(["Multibag-Tag-Directory", "mbx"])
        extra["mbx/y"] = b""
        want.add((WARN, "2-Tag-Directory"))
    elif kind == "tdrep":
        info += [["Multibag-Tag-Directory", "mbx"], ["Multibag-Tag-Directory", "nothere"]]
        extra["mbx/y"] = b""
        want.add((WARN, "2-Tag-Directory"))
        ntd = 2     # it should not be set, and one of the two is there
    elif kind == "head":
        info += [["Multibag-Head-Version", "1"], ["Multibag-Tag-Directory", "mbx"], ["Multibag-Head-Deprecates", "0"]]
        extra["mbx/y"] = b""
    if kind not in ("plain", "02"):
        if "\t" in spec["name"]:
            want.add((ERR, "2.1a-name-TAB"))
        if re.search(r"^\s|\s\Z", spec["name"]):
            want.add((ERR, "2.1b-name-wsp"))
    bd = bags.write_bag(ctx.dirpath("m"), dict(spec, info=info), extra)
    if kind == "damaged":
        bags.write_file(os.path.join(bd, "data", "not-listed"), b"x")
        want.add((ERR, "2-Bag"))
    ctx.tag("member:" + kind)
    z = bags.serialize(bd, ctx.dirpath("mser"), case["ext"], case["de"])
    for what, loc in (("as a directory", bd), ("serialized as " + case["ext"], z)):
        res = ValidationResults("x", ALL)
        MemberBagValidator(loc).validate(ALL, res)
        got = failing(res)
        require(got == want, "member bag %r (%s) %s: the validator reports %s; the profile's rules broken are %s",
                spec["name"], kind, what, show(got), show(want))
        n = [x.label for x in res.failed(WARN)].count("2-Tag-Directory")
        require(ntd is None or n == ntd, "member bag %r (%s) %s: %d failures of 2-Tag-Directory instead of %r", spec["name"], kind, what, n, ntd)
    # without a results object to add to
    got = failing(MemberBagValidator(bd).validate(ALL))
    lost = want - got
    if got <= want and lost and kind not in ("plain", "02"):
        fail("member validate() without a results object drops %s", show(lost))
    require(got == want, "member bag %r (%s): validate() reports %s; the profile's rules broken are %s", spec["name"], kind, show(got), show(want))


DROPPED = {"error 2.1a-name-TAB", "error 2.1b-name-wsp", "warning 2-Head-Deprecates", "warning 2-Tag-Directory"}


def known(case, msg):
    m = re.match(r"member validate\(\) without a results object drops \[(.*)\]\Z", msg)
    if m and set(x.strip(" '") for x in m.group(1).split("', '")) <= DROPPED:
        return "member-validate-drops"
