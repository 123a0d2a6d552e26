"""modification times of restored files"""
import os, time, zipfile
from hypothesis import strategies as st
from .. import bags, aggr
from ..engine import fail, require

ID, LEVEL = "C24", "exploration"
CASES = {"quick": 1600, "thorough": 40000}
RULE = ("case = generated aggregation whose members' files have their own modification times (before 1980 to after 2038, fractions of a "
        "second) x form of each member and of the head bag x new destination, in place or partly restored x time zone; every restored "
        "file's time compared with that of the file in the last member that has it; non-trivial: overlapping or serialized members; "
        "distinct by case hash")
EXTS = ["", "", ".zip", ".tar", ".tar.gz", ".tar.bz2", ".tgz"]
TIMES = [0, 1, 86400, 315532800, 315619200, 951782400, 1583020800, 1616893200, 1635642000, 1700000000, 2147483647, 2147483650, 2500000000]


@st.composite
def strategy(draw):
    case = draw(aggr.aggregation(max_members=4, max_files=6, fetch=False))
    n = len(case["members"])
    case["dest"] = draw(st.sampled_from(["new", "new", "inplace", "partial"]))
    case["ser"] = [draw(st.sampled_from(EXTS)) for _ in range(n)]
    case["base"] = draw(st.one_of(st.sampled_from(TIMES), st.integers(400000000, 1900000000)))
    case["step"] = draw(st.sampled_from([2, 14, -2, 3600, 86400 * 30]))
    case["frac"] = draw(st.sampled_from([0, 0, 0.5, 0.25]))
    case["tz"] = draw(st.sampled_from(["UTC", "UTC", "EST5EDT", "XXX-9:30", "CET-1CEST"]))
    return case


def check(case, ctx):
    tz = os.environ.get("TZ")
    os.environ["TZ"] = case["tz"]
    time.tzset()
    try:
        run(case, ctx)
    finally:
        if tz is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = tz
        time.tzset()


def run(case, ctx):
    from multibag.restore import BagRestorer
    paths = aggr.write(case, ctx.dirpath("a"))
    over = aggr.tags(case, ctx)
    ctx.nontrivial(over or any(case["ser"]))
    want, exact = {}, {}
    k = 0
    for i, p in enumerate(paths):
        ext = case["ser"][i] if i < len(paths) - 1 or case["dest"] == "new" else ""
        for f in sorted(bags.spec_files(case["members"][i])):
            t = max(case["base"] + k * case["step"], 0) + (case["frac"] if not ext else 0)
            k += 1
            if ext == ".zip":
                # a zip file holds local times since 1980, to two seconds; which zone it was written in is not known
                t = min(max(t, 315532800 + 86400 * 7), 4000000000)
            os.utime(os.path.join(p, f), (t, t))
            want[f] = t
            exact[f] = ext != ".zip"
    for i, p in enumerate(paths[:-1]):
        if case["ser"][i]:
            ser(p, case["ser"][i])
            ctx.tag("serialized as " + case["ser"][i])
    head = paths[-1]
    dest = ctx.dirpath("restored")
    if case["dest"] == "new":
        if case["ser"][-1]:
            head = ser(head, case["ser"][-1])
            ctx.tag("serialized head")
    elif case["dest"] == "inplace":
        dest = None
    ctx.tag("dest:" + case["dest"], "zone:" + case["tz"])
    if case["dest"] == "partial" and len(paths) > 1:
        r = BagRestorer(head, dest)
        r.restore_member(os.path.basename(head), r.head_bag.deleted_paths())
        r.restore_member(os.path.basename(paths[-2]), r.head_bag.deleted_paths())
    r = BagRestorer(head, dest)
    r.restore()
    dest = dest or head
    files = aggr.model(case)[0]
    for f in sorted(files):
        if bags.is_special(f):
            continue
        got = os.stat(os.path.join(dest, f)).st_mtime
        tol = 0.001 if exact[f] else 86400 if case["tz"] != "UTC" else 2
        require(abs(got - want[f]) <= tol, "restored file %r has the modification time %r, in the member it is from, %r", f, got, want[f])
        require(os.path.getsize(os.path.join(dest, f)) == len(files[f]), "restored file %r has other content", f)


def ser(bd, ext):
    """serialize with the files' own times, removing the directory"""
    import shutil
    if ext == ".zip":
        with zipfile.ZipFile(bd + ext, "w", strict_timestamps=False) as z:
            for root, ds, fs in os.walk(bd):
                for n in sorted(ds) + sorted(fs):
                    p = os.path.join(root, n)
                    z.write(p, os.path.join(os.path.basename(bd), os.path.relpath(p, bd)))
        out = bd + ext
    else:
        out = bags.serialize(bd, bd, ext)
    shutil.rmtree(bd)
    return out
