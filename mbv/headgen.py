"""Generating and writing head bag information (independently of the code under test)."""
from hypothesis import strategies as st
from . import bags, gens

MEMBERS = ["m1", "m2", "old.mbag", "prev bag", "b\u00e4g", "x_1.mbag", "m1.x"]
URIS = [None, None, "http://example.com/a.zip", "doi:10.18434/X", "urn:x:y", "ark:/1/2", "https://e.org/b?c=d#f"]


@st.composite
def head(draw, own):
    """head information for a bag named own; the member list always ends with own"""
    n = draw(st.integers(0, 3))
    mem = draw(st.lists(st.sampled_from(MEMBERS), min_size=n, max_size=n, unique=True))
    mem = [m for m in mem if m != own] + [own]
    members = [[m, draw(st.sampled_from(URIS)), draw(st.sampled_from([None, None, "hi", "a # b"]))] for m in mem]
    lu = []
    for _ in range(draw(st.integers(0, 4))):
        lu.append(["data/" + draw(gens.component), draw(st.sampled_from(mem))])
    seen, lookup = set(), []
    for p, b in lu:
        if p not in seen:
            seen.add(p)
            lookup.append([p, b])
    dele = draw(st.lists(gens.component, max_size=3, unique=True))
    return {"members": members, "lookup": lookup, "deleted": ["data/" + d for d in dele],
            "tagdir": draw(st.sampled_from([None, None, "multibag", "mbag"])),
            "version": draw(st.sampled_from(["1", "1.0", "2.1", "v3"]))}


def extra(h, lookup=None):
    """the tag files of this head information: {path: bytes}"""
    td = h.get("tagdir") or "multibag"
    out = {}
    lu = h["lookup"] if lookup is None else lookup
    if h.get("mbver") == "0.2":
        out[td + "/group-members.txt"] = "".join(n + (" " + u if u else "") + "\n" for n, u, c in h["members"]).encode("utf-8")
        out[td + "/group-directory.txt"] = "".join("%s %s\n" % tuple(x) for x in lu).encode("utf-8")
        return out
    mb = []
    for n, u, c in h["members"]:
        line = n
        if u:
            line += "\t" + u
        if c:
            line += "\t# " + c
        mb.append(line + "\n")
    out[td + "/member-bags.tsv"] = "".join(mb).encode("utf-8")
    out[td + "/file-lookup.tsv"] = "".join("%s\t%s\n" % tuple(x) for x in lu).encode("utf-8")
    if h.get("deleted"):
        out[td + "/deleted.txt"] = "".join(d + "\n" for d in h["deleted"]).encode("utf-8")
    if h.get("agginfo") is not None:
        out[td + "/aggregation-info.txt"] = bags.info_text(h["agginfo"]).encode("utf-8")
    return out


def info(h):
    out = [["Multibag-Version", h.get("mbver") or "0.4"], ["Multibag-Head-Version", h["version"]],
           ["Multibag-Reference", "https://github.com/usnistgov/multibag-py"]]
    if h.get("tagdir"):
        out.append(["Multibag-Tag-Directory", h["tagdir"]])
    for d in h.get("deprecates") or []:
        out.append(["Multibag-Head-Deprecates", d])
    return out


def parse_members(data):
    """[(name, uri or None, comment or None, [extra...])] as the profile defines a member-bags.tsv"""
    out = []
    for line in data.decode("utf-8").split("\n"):
        line = line.rstrip("\r")
        if not line.strip():
            continue
        f = line.split("\t")
        name = f.pop(0).strip(" ")
        comm = None
        for i, x in enumerate(f):
            if x.startswith("# "):
                comm = "\t".join(f[i:])[2:].strip()
                f = f[:i]
                break
        uri = (f.pop(0) or None) if f else None
        out.append((name, uri, comm, f))
    return out


def parse_lookup(data):
    out = []
    for line in data.decode("utf-8").split("\n"):
        line = line.rstrip("\r")
        if not line.strip():
            continue
        f = line.split("\t")
        out.append((f[0].strip(" "), f[1].strip(" ") if len(f) > 1 else None))
    return out


def parse_deleted(data):
    return [l.strip() for l in data.decode("utf-8").split("\n") if l.strip()]
