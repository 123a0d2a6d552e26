"""the grammar of the head bag tag files"""
import os
from hypothesis import strategies as st
from .. import bags, gens, headgen
from ..engine import fail, require

ID, LEVEL = "C11", "exploration"
CASES = {"quick": 4000, "thorough": 120000}
RULE = ("case = member, lookup and deleted lines rendered from fields with every liberty of the grammar (profile 0.2, 0.3, 0.4 and later), "
        "optionally with one malformed line, read through writable, read-only and serialized head bags, and member entries formatted and "
        "parsed back; non-trivial: at least 2 lines of which one has an optional part; distinct by case hash")

_chr = st.characters(codec="utf-8", categories=("L", "N", "P", "S", "Zs"), include_characters="\u2028\x85\x0b\x1c")
_word = st.text(alphabet=_chr, min_size=1, max_size=8).map(lambda s: s.strip()).filter(lambda s: s and s == s.strip())
NAME = st.one_of(st.sampled_from(["m1", "a b", "bag.mbag", "#bag", "# bag", "b\u00e4g", "a\u2028b", "x#y", "a  b", "a.zip"]), _word)
NAME02 = st.one_of(st.sampled_from(["m1", "bag.mbag", "#bag", "b\u00e4g", "x#y"]),
                   st.text(alphabet=st.characters(codec="utf-8", categories=("L", "N", "P", "S")), min_size=1, max_size=6))
URI = st.one_of(st.sampled_from(["http://a.b/c.zip", "doi:10.1/2", "http://a/b#frag", "urn:a:b", "ark:/1/2"]),
                _word.filter(lambda s: not s.startswith("#")))
EXTRA = st.one_of(st.sampled_from(["1234", "sha256=0", "two words", "x # y"]), _word.filter(lambda s: not s.startswith("#")))
COMMENT = st.one_of(st.sampled_from(["a comment", "with # in it", "with\ttab", "x\t# y", "a\t\tb", "2\t#"]), _word.filter(lambda s: s[0] != "#"))
PATH = st.one_of(st.sampled_from(["data/a", "data/a b", "data/#x", "# x", "data/\u00e9", "a\u2028b", "data/a  b/c"]), _word)
SP = st.sampled_from(["", "", "", " ", "   "])


@st.composite
def member(draw):
    m = {"name": draw(NAME), "sp": draw(SP), "uri": None, "extra": [], "comment": None}
    k = draw(st.integers(0, 5))
    if k in (1, 2, 4):
        m["uri"] = draw(URI)
    if k in (2, 3):
        m["extra"] = draw(st.lists(EXTRA, min_size=1, max_size=3))
        if draw(st.integers(0, 3)) == 0:
            # an empty column, followed by one that is not
            m["extra"].insert(0, "")
    if draw(st.booleans()):
        m["comment"] = draw(COMMENT)
    # an empty URL column may also be there without need
    m["empty"] = m["uri"] is None and (bool(m["extra"]) or (m["comment"] is not None and draw(st.booleans())))
    return m


@st.composite
def strategy(draw):
    ver = draw(st.sampled_from(["0.4", "0.4", "0.3", "0.2", "0.2", "0.10", "1.0"]))
    old = ver == "0.2"
    case = {"version": ver, "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])), "nofinal": draw(st.booleans()),
            "blank": draw(st.lists(st.sampled_from(["", " ", "\t", "  \t"]), max_size=2)), "bom": draw(st.integers(0, 5)) == 0,
            "form": draw(st.sampled_from(["head", "ro", ".zip", ".tar", ".tgz"])), "tagdir": draw(st.sampled_from([None, "mb"]))}
    if old:
        case["members"] = draw(st.lists(st.fixed_dictionaries({"name": NAME02, "uri": st.one_of(st.none(), st.sampled_from(["http://a/b", "doi:1/2"])),
                                                               "sp": st.sampled_from([" ", "   "])}), min_size=1, max_size=4))
        case["lookup"] = draw(st.lists(st.tuples(NAME02, st.sampled_from([" ", "   "]), NAME02).map(list), max_size=4))
    else:
        case["members"] = draw(st.lists(member(), min_size=1, max_size=4))
        case["lookup"] = draw(st.lists(st.tuples(PATH, SP, SP, NAME).map(list), max_size=4))
    case["deleted"] = draw(st.lists(PATH, max_size=3))
    case["bad"] = draw(st.sampled_from([None, None, "member", "lookup"]))
    case["badline"] = draw(st.sampled_from(["data/a"] if old else ["data/a", "data/a\t", "\tbag", "data/a\t  ", "  \tbag"])) \
        if case["bad"] == "lookup" else draw(st.sampled_from(["\thttp://a/b", "  \thttp://a/b", "\t\tx", "\t# a comment"]))
    if old and case["bad"] == "member":
        case["bad"] = None
    case["badat"] = draw(st.integers(0, 4))
    return case


def render(m, old):
    if old:
        return m["name"] + (m["sp"] + m["uri"] if m["uri"] else "")
    out = m["name"] + m["sp"]
    if m["uri"] is not None:
        out += "\t" + m["uri"]
    elif m["empty"]:
        out += "\t"
    for e in m["extra"]:
        out += "\t" + e
    if m["comment"] is not None:
        out += "\t# " + m["comment"]
    return out


def expect(m, old):
    if old:
        return [m["name"], m["uri"], None, []]
    return [m["name"], m["uri"], m["comment"], list(m["extra"])]


def text(case, lines):
    out = list(lines)
    for i, b in enumerate(case["blank"]):
        out.insert(min(i * 2, len(out)), b)
    t = case["eol"].join(out)
    if out and not case["nofinal"]:
        t += case["eol"]
    return ("\ufeff" if case["bom"] else "").encode("utf-8") + t.encode("utf-8")


def check(case, ctx):
    from multibag.access.multibag import HeadBag, open_headbag, MemberInfo, parse_file_lookup_line_03, parse_group_directory_line
    from multibag.access.exceptions import MultibagError
    old = case["version"] == "0.2"
    ctx.tag("profile " + case["version"], "form:" + case["form"])
    ctx.nontrivial(len(case["members"]) + len(case["lookup"]) >= 2 and
                   any(m.get("uri") or m.get("comment") or m.get("extra") for m in case["members"]))
    mlines = [render(m, old) for m in case["members"]]
    llines = [a[0] + a[1] + a[2] if old else a[0] + a[1] + "\t" + a[2] + a[3] for a in case["lookup"]]
    wm = [expect(m, old) for m in case["members"]]
    wl = [[a[0], a[-1]] for a in case["lookup"]]
    # the line parsers, and formatting
    parse = MemberInfo.parse_line_02 if old else MemberInfo.parse_line_03
    for l, w in zip(mlines, wm):
        for end in ("", case["eol"]):
            m = parse(l + end)
            g = [m.name, m.uri, m.comment, list(m.info)]
            require(g == w, "member line %r is read as %r, expected %r", l + end, g, w)
    if not old:
        for w in wm:
            line = MemberInfo(w[0], w[1], w[2], *w[3]).format()
            require(line.endswith("\n") and line.count("\n") == 1, "format() gave %r", line)
            m = MemberInfo.parse_line_03(line)
            g = [m.name, m.uri, m.comment, list(m.info)]
            require(g == w, "the entry %r is formatted as %r, which is read as %r", w, line, g)
            ours = headgen.parse_members(line.encode("utf-8"))
            require([list(x) for x in ours] == [[w[0], w[1], w[2], w[3]]], "the entry %r is formatted as %r, not per the profile", w, line)
    plu = parse_group_directory_line if old else parse_file_lookup_line_03
    for l, w in zip(llines, wl):
        g = list(plu(l + case["eol"]))
        require(g == w, "lookup line %r is read as %r, expected %r", l, g, w)
    if case["bad"]:
        ctx.tag("malformed " + case["bad"] + " line")
        lines = mlines if case["bad"] == "member" else llines
        lines.insert(min(case["badat"], len(lines)), case["badline"])
    # through a bag
    td = case["tagdir"] or "multibag"
    extra = {td + "/" + ("group-members.txt" if old else "member-bags.tsv"): text(case, mlines),
             td + "/" + ("group-directory.txt" if old else "file-lookup.tsv"): text(case, llines),
             td + "/deleted.txt": text(case, case["deleted"])}
    info = [["Multibag-Version", case["version"]], ["Multibag-Head-Version", "1"]]
    if case["tagdir"]:
        info.append(["Multibag-Tag-Directory", td])
    bd = bags.write_bag(ctx.dirpath(), {"name": "hb", "files": [["data/x", 1, 1]], "algs": ["md5"], "tagalgs": [], "version": "0.97",
                                        "info": info}, extra)
    if case["form"] == "head":
        hb = HeadBag(bd)
    elif case["form"] == "ro":
        hb = open_headbag(bd, readonly=True)
    else:
        hb = open_headbag(bags.serialize(bd, bd + "_s", case["form"]))
    where = " (%s)" % case["form"]
    for fun in ("iter_member_bags", "member_bags", "member_bag_names"):
        if case["bad"] == "member":
            try:
                x = getattr(hb, fun)
                x = list(x() if callable(x) else x)
            except MultibagError:
                continue
            fail("%s gave %r for a list with the malformed line %r%s", fun, [getattr(m, "name", m) for m in x], case["badline"], where)
        x = getattr(hb, fun)
        x = list(x() if callable(x) else x)
        g = [[m.name, m.uri, m.comment, list(m.info)] for m in x] if fun != "member_bag_names" else x
        w = wm if fun != "member_bag_names" else [m[0] for m in wm]
        require(g == w, "%s is %r, expected %r%s", fun, g, w, where)
    if case["bad"] == "lookup":
        for fun in (lambda: list(hb.iter_file_lookup()), lambda: hb.lookup_file("data/a"), lambda: hb.files_in_member("m1")):
            try:
                x = fun()
            except MultibagError:
                continue
            fail("got %r from a lookup file with the malformed line %r%s", x, case["badline"], where)
    else:
        g = [list(x) for x in hb.iter_file_lookup()]
        require(g == wl, "lookup file is read as %r, expected %r%s", g, wl, where)
        d = dict((a, b) for a, b in wl)
        for p in d:
            require(hb.lookup_file(p) == d[p], "lookup_file(%r) is %r, expected %r%s", p, hb.lookup_file(p), d[p], where)
    g = list(hb.iter_deleted())
    require(g == case["deleted"], "deleted.txt is read as %r, expected %r%s", g, case["deleted"], where)
    require(set(hb.deleted_paths()) == set(case["deleted"]), "deleted_paths() is %r%s", hb.deleted_paths(), where)
