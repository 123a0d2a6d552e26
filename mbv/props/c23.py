"""size tags: Payload-Oxum and Bag-Size"""
import os, re, math
from hypothesis import strategies as st
from .. import bags, gens, aggr, splitting
from ..engine import fail, require

ID, LEVEL = "C23", "exploration"
CASES = {"quick": 3000, "thorough": 80000}
RULE = ("case = random bag (with or without an earlier Bag-Size or a wrong Payload-Oxum; payload files grown, as sparse files, to totals "
        "around the unit boundaries up to TBs) x calculate, convert, convert again, amend, or restore an aggregation; "
        "sizes are taken from the operating system; non-trivial: total of at least 1000 bytes and one payload file; distinct by case hash")
UNITS = {"": 1, "k": 10**3, "M": 10**6, "G": 10**9, "T": 10**12}


@st.composite
def strategy(draw):
    kind = draw(st.sampled_from(["calc", "calc", "convert", "convert", "amend", "restore", "restore"]))
    case = {"kind": kind}
    if kind == "restore":
        case["agg"] = draw(aggr.aggregation(max_files=6, fetch=False))
        big = draw(st.sampled_from([None, None, 1000, 9900, 12346, 99000, 250000, 998000, 999400]))
        if big:
            for m in case["agg"]["members"]:
                if m["files"]:
                    m["files"][0][1] = big
        case["way"] = draw(st.sampled_from(["new", "new", "inplace"]))
        return case
    case["bag"] = draw(gens.bag(min_files=draw(st.sampled_from([0, 1, 1, 2])), max_files=7))
    if kind == "amend":
        case["new"] = draw(gens.bag(name="newhead", min_files=1, max_files=5, info="yes"))
    # grow the total to about this, by extending payload file no. k with a hole
    e = draw(st.integers(2, 12))
    case["grow"] = draw(st.one_of(st.none(), st.sampled_from([10**e, 10**e - 40, 10**e * 0.99995 // 1, 9999 * 10**(e - 2), 12345 * 10**(e - 2)]),
                                  st.integers(0, 10**7), st.integers(10**e, 10 * 10**e)))
    if case["grow"] is not None:
        case["grow"] = int(case["grow"])
    case["k"] = draw(st.integers(0, 6))
    case["oldsize"] = draw(st.sampled_from([None, None, "12 kB", "3 GB or so", "1"]))
    case["badoxum"] = draw(st.booleans())
    case["again"] = draw(st.integers(0, 2))
    return case


def disk(bd):
    """(payload bytes, payload files, bytes of all files, bytes of all directories)"""
    pb = pf = tot = dirs = 0
    for dp, dn, fn in os.walk(bd):
        for f in fn:
            s = os.lstat(os.path.join(dp, f)).st_size
            tot += s
            if os.path.relpath(dp, bd).split(os.sep)[0] == "data":
                pb += s
                pf += 1
        for d in dn:
            dirs += os.lstat(os.path.join(dp, d)).st_size
    return pb, pf, tot, dirs


def tags(bd):
    return bags.info_dict(bags.parse_info(open(os.path.join(bd, "bag-info.txt"), "rb").read()))


def true_size(text, files, dirs, slack, what):
    m = re.match(r"^(\d+(?:\.\d+)?) ([kMGT]?)B$", text)
    require(m, "%s: the Bag-Size tag %r is not a number and a unit", what, text)
    num, unit = float(m.group(1)), UNITS[m.group(2)]
    dig = m.group(1).replace(".", "").lstrip("0")
    require(len(dig.rstrip("0") or "0") <= 4, "%s: Bag-Size %r has more than four significant digits", what, text)
    require(num <= 1000 or m.group(2) == "T", "%s: Bag-Size %r should be in a larger unit", what, text)
    require(num >= 0.999 or unit == 1, "%s: Bag-Size %r should be in a smaller unit", what, text)
    half = 0.5001 * 10 ** (math.floor(math.log10(num)) - 3) * unit if num > 0 else 0.5
    val = num * unit
    require(files - slack - half <= val <= files + dirs + slack + half,
            "%s: Bag-Size is %r but the files total %d bytes (directories %d)", what, text, files, dirs)


def one(v):
    return v[-1] if isinstance(v, list) else v


def check_tags(bd, what, slack, oxum=True, size=True):
    pb, pf, tot, dirs = disk(bd)
    t = tags(bd)
    if oxum:
        require(t.get("Payload-Oxum") == ["%d.%d" % (pb, pf)] or t.get("Payload-Oxum") == "%d.%d" % (pb, pf),
                "%s: Payload-Oxum is %r, but there are %d bytes in %d files", what, t.get("Payload-Oxum"), pb, pf)
    if size:
        bs = t.get("Bag-Size")
        bs = bs if isinstance(bs, list) else [bs]
        require(len(bs) == 1 and bs[0], "%s: Bag-Size tags are %r", what, bs)
        true_size(bs[0], tot, dirs, slack, what)
    return t


def grow(bd, spec, case):
    pl = [os.path.join(bd, f[0]) for f in spec["files"] if f[0].startswith("data/")]
    if case["grow"] is None or not pl:
        return
    p = pl[case["k"] % len(pl)]
    tot = disk(bd)[2]
    if case["grow"] > tot:
        os.truncate(p, os.stat(p).st_size + case["grow"] - tot)


def check(case, ctx):
    from multibag.access.bagit import Bag
    from multibag.access.extended import as_extended
    from multibag.amend import make_single_multibag, amend_bag_with
    from multibag.restore import restore_bag
    kind = case["kind"]
    ctx.tag(kind)
    if kind == "restore":
        agg = case["agg"]
        a = ctx.dirpath("a")
        paths = aggr.write(agg, a)
        if case["way"] == "new":
            dest = ctx.dirpath("dest")
            restore_bag(paths[-1], dest, a)
        else:
            dest = paths[-1]
            restore_bag(dest, compdir=a)
        src = (agg["agginfo"] if agg["agginfo"] is not None else None)
        ctx.tag("restore:" + case["way"])
        old = sum(len(v) for k, v in (src or agg["members"][-1]["info"] or []) if k == "Bag-Size")
        t = check_tags(dest, "restored bag", 45 + old)
        ctx.nontrivial(disk(dest)[1] > 0 and disk(dest)[2] >= 1000)
        b = as_extended(Bag(dest))
        require(tuple(b.calc_oxum()) == disk(dest)[:2], "calc_oxum() of the restored bag is %r, expected %r", b.calc_oxum(), disk(dest)[:2])
        return

    spec = dict(case["bag"])
    if spec["info"] is not None:
        spec["info"] = [x for x in spec["info"] if x[0] != "Bag-Size"]
        if case["oldsize"]:
            spec["info"].insert(len(spec["info"]) // 2, ["Bag-Size", case["oldsize"]])
            ctx.tag("had Bag-Size")
        if case["badoxum"]:
            spec["oxum"] = False
            spec["info"] = spec["info"] + [["Payload-Oxum", "7.77"]]
    bd = bags.write_bag(ctx.dirpath(), spec)
    if kind != "amend":
        grow(bd, spec, case)
    pb, pf, tot, dirs = disk(bd)
    if kind != "amend":
        ctx.nontrivial(pf > 0 and tot >= 1000)
        ctx.tag("size 1e%d" % int(math.log10(tot)))
    old = len(case["oldsize"] or "")

    if kind == "calc":
        b = as_extended(Bag(bd))
        require(tuple(b.calc_oxum()) == (pb, pf), "calc_oxum() is %r, but there are %d bytes in %d files", b.calc_oxum(), pb, pf)
        r = b.update_oxum()
        require(tuple(r) == (pb, pf), "update_oxum() returns %r, expected %r", r, (pb, pf))
        require(b.info["Payload-Oxum"] == "%d.%d" % (pb, pf), "update_oxum() set %r, expected %d.%d", b.info["Payload-Oxum"], pb, pf)
        b.save()
        check_tags(bd, "after update_oxum", 0, size=False)
        _, _, tot, dirs = disk(bd)
        r = b.calc_bag_size()
        require(tot - old - 25 <= r <= tot + dirs + 25, "calc_bag_size() is %r, but the files total %d bytes", r, tot)
        for _ in range(case["again"] + 1):
            b.update_bag_size()
            b.save()
            check_tags(bd, "after update_bag_size", 45 + old)
        # a new object on the same bag agrees
        c = as_extended(Bag(bd))
        c.update_oxum()
        require(c.info["Payload-Oxum"] == b.info["Payload-Oxum"], "recomputing gives Payload-Oxum %r, then %r", b.info["Payload-Oxum"],
                c.info["Payload-Oxum"])
    elif kind == "convert":
        make_single_multibag(bd, "1")
        t = check_tags(bd, "converted bag", 40, oxum=False)
        for _ in range(case["again"]):
            make_single_multibag(bd, "1")
            t2 = check_tags(bd, "converted bag", 40, oxum=False)
            require(t2 == t, "converting again changed the tags from %r to %r", t, t2)
    else:
        new = bags.write_bag(ctx.dirpath("n"), case["new"])
        grow(new, case["new"], case)
        ctx.nontrivial(disk(new)[2] >= 1000)
        ctx.tag("size 1e%d" % int(math.log10(disk(new)[2])))
        amend_bag_with(bd, new, "2")
        check_tags(new, "amending head bag", 40, oxum=False)
