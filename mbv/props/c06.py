"""restoring against the reference merge"""
import os
from hypothesis import strategies as st
from .. import bags, aggr
from ..engine import fail, require

ID, LEVEL = "C06", "exploration"
CASES = {"quick": 4000, "thorough": 100000}
RULE = ("case = aggregation of 1 to 4 generated bags (overlapping files, different algorithms, fetch lists, old head bags, "
        "deleted files and directories, aggregation-info, own tag directory), written by the harness; non-trivial: members overlap, "
        "or something is deleted or to be fetched; distinct by case hash")


def strategy():
    return aggr.aggregation()


def check(case, ctx):
    import multibag
    paths = aggr.write(case, ctx.dirpath("a"))
    over = aggr.tags(case, ctx)
    ctx.nontrivial(over or case["deleted"] or any(m["fetch"] for m in case["members"]))
    dest = ctx.dirpath("restored")
    out = multibag.restore_bag(paths[-1], dest)
    require(os.path.abspath(out.path) == os.path.abspath(dest), "restore_bag returned a bag at %r", out.path)
    aggr.verify(case, dest)


# members whose bagit.txt declares another encoding than UTF-8
FIXED = [{"members": [{"name": "m1", "files": [["data/\u00e9", 5, 1]], "dirs": [], "algs": ["md5"], "tagalgs": [], "version": "0.97",
                       "sep": "  ", "partial": False, "oxum": False, "info": [["Contact-Name", "x"]], "fetch": [], "encoding": "ISO-8859-1"}],
          "deleted": [], "tagdir": None, "agginfo": None, "mbver": "0.4", "nolookup": False, "latin1": True}]


def known(case, msg):
    if case.get("latin1") and "not a valid bag: ['manifest-md5 lists missing data/\u00c3\u00a9'" in msg:
        return "restore-encoding"
