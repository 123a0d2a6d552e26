"""the bookkeeping of validation results"""
import json
from hypothesis import strategies as st
from .. import bags
from ..engine import fail, require
from . import c14

ID, LEVEL = "C15", "exploration"
CASES = {"quick": 3000, "thorough": 120000}
RULE = ("case = a sequence of recorded outcomes (severity, outcome as any truth value, comments, reused or new issue objects) compared with a "
        "list model over all 8 severity masks, and given to validators made from it; or a generated head bag with departures put to the "
        "real validators with all masks; non-trivial: outcomes of at least two severities recorded, or a departure in the bag; distinct by "
        "case hash")
ERR, WARN, REC = 1, 2, 4
TRUTH = [True, False, 1, 0, None, "", "x", [], ["a"], True, False]
text = st.one_of(st.sampled_from(["3-Version", "a", "", "4.1-1", "l\u00e4b", "{0}", "%s"]), st.text(max_size=5))


@st.composite
def strategy(draw):
    if draw(st.integers(0, 3)) == 0:
        return {"head": draw(c14.strategy()), "want": draw(st.integers(1, 7)), "pre": draw(st.integers(0, 3))}
    ops = []
    for _ in range(draw(st.integers(0, 8))):
        c = draw(st.sampled_from(["none", "str", "list", "tuple", "empty"]))
        ops.append([draw(text), draw(text), draw(st.sampled_from([ERR, WARN, REC])), draw(st.integers(0, len(TRUTH) - 1)), c,
                    draw(st.lists(text, min_size=1, max_size=3)), draw(st.integers(0, 3)) == 0,
                    draw(st.sampled_from(["method", "method", "add", "mutate", "wrongtype"]))])
    return {"ops": ops, "want": draw(st.integers(0, 7)), "cut": draw(st.integers(0, 8)), "version": draw(st.sampled_from([None, "0.3", "9"]))}


def sub(mask):
    return [s for s in (ERR, WARN, REC) if s & mask]


def shot(i):
    return (i.label, i.specification, i.type, i.passed(), tuple(i.comments), i.profile_version)


def new_issue(res, label, spec):
    if hasattr(res, "_issue"):
        return res._issue(label, spec)
    from multibag.validate.base import ValidationIssue
    return ValidationIssue(label, spec=spec)


def record(res, ops, model, version):
    """do the operations, keeping the model: {severity: [(label, spec, severity, passed, comments, version)]}"""
    prev = None
    for lab, spec, sev, tv, ck, comm, reuse, how in ops:
        if reuse and prev is not None:
            issue, lab, spec, old = prev
        else:
            issue, old = new_issue(res, lab, spec), []
            require(issue.passed() is True and issue.label == lab and issue.specification == spec and tuple(issue.comments) == (),
                    "a new issue does not hold what it was made from")
        if how == "wrongtype":
            issue.type = {ERR: REC, WARN: ERR, REC: WARN}[sev]
        arg = {"none": None, "str": comm[0], "list": list(comm), "tuple": tuple(comm), "empty": []}[ck]
        old = old + {"none": [], "empty": [], "str": [comm[0]] if comm[0] else [], "list": list(comm), "tuple": list(comm)}[ck]
        if how == "add" and hasattr(res, "_add_issue"):
            res._add_issue(issue, sev, TRUTH[tv], arg)
        else:
            {ERR: res._err, WARN: res._warn, REC: res._rec}[sev](issue, TRUTH[tv], arg)
        require(issue.passed() == bool(TRUTH[tv]) and issue.failed() == (not TRUTH[tv]),
                "the recorder's issue says passed=%r after recording %r", issue.passed(), TRUTH[tv])
        model[sev].append((lab, spec, sev, bool(TRUTH[tv]), tuple(old), version))
        prev = [issue, lab, spec, old]
        if isinstance(arg, list):
            arg.append("added to the list afterwards")
        if how == "mutate":
            # the recorder goes on using its own object
            issue.add_comment("later")
            issue.label = "changed"
            issue.specification = "changed"
            if hasattr(issue, "_passed"):
                issue._passed = not issue._passed
            issue.type = {ERR: WARN, WARN: REC, REC: ERR}[sev]
            prev = None


def compare(res, model, want):
    for mask in list(range(8)) + [None]:
        m = 7 if mask is None else mask
        args = () if mask is None else (mask,)
        for what, sel in (("applied", lambda x: True), ("failed", lambda x: not x[3]), ("passed", lambda x: x[3])):
            got = getattr(res, what)(*args)
            exp = [x for s in sub(m) for x in model[s] if sel(x)]
            g = [shot(x) for x in got]
            for s in (ERR, WARN, REC):
                require([x for x in g if x[2] == s] == [x for x in exp if x[2] == s], "%s(%s) gives, for severity %d, %r; recorded were %r",
                        what, mask, s, [x for x in g if x[2] == s], [x for x in exp if x[2] == s])
            n = getattr(res, "count_" + what)(*args)
            require(n == len(exp), "count_%s(%s) is %r; %d were recorded", what, mask, n, len(exp))
            got.append(None)
            got.reverse()
    bad = [x for s in sub(want) for x in model[s] if not x[3]]
    require(res.ok() == (not bad), "ok() is %r for wanted severities %d with failures %r", res.ok(), want,
            [x for s in sub(7) for x in model[s] if not x[3]])


def convert(res):
    from multibag.validate.base import ValidationIssue
    for i in res.applied():
        t = i.to_tuple()
        j = ValidationIssue.from_tuple(t)
        require(shot(j) == shot(i), "an issue %r became %r when turned into a tuple and back", shot(i), shot(j))
        require(t[0] == i.type and t[3] == i.label and t[4] == i.specification, "to_tuple() of %r gives %r", shot(i), t)
        o = json.loads(json.dumps(i.to_json_obj()))
        require(o["type"] == {ERR: "error", WARN: "warning", REC: "recommendation"}[i.type] and o["label"] == i.label and
                o["spec"] == i.specification and tuple(o["comments"]) == tuple(i.comments), "to_json_obj() of %r gives %r", shot(i), o)
        require(i.label in i.summary and i.specification in i.summary and
                ("PASSED" in i.summary.split(":")[0]) == i.passed(), "summary of %r is %r", shot(i), i.summary)
        require(i.description.startswith(i.summary) and all(c in i.description for c in i.comments) and str(i).startswith(i.summary),
                "description of %r is %r", shot(i), i.description)


def judge(mk, want, what):
    """the three ways of asking agree; returns the results"""
    from multibag.validate import MultibagValidationError
    res = mk().validate(want)
    require(res.want == want, "%s: validate(%d) returned results for %r", what, want, res.want)
    bad = res.failed(want)
    v = mk().is_valid(want)
    require(res.ok() == (not bad), "%s: ok() is %r for %d with failed %r", what, res.ok(), want, [i.label for i in bad])
    require(v == (not bad), "%s: is_valid(%d) is %r with failed %r", what, want, v, [i.label for i in bad])
    ex = None
    try:
        mk().ensure_valid(want)
    except MultibagValidationError as e:
        ex = e
    require((ex is not None) == bool(bad), "%s: ensure_valid(%d) %s with failed %r", what, want,
            "raised" if ex else "did not raise", [i.label for i in bad])
    if ex:
        require([shot(i) for i in ex.results.applied()] == [shot(i) for i in res.applied()],
                "%s: the raised error does not carry the results that validate(%d) gives", what, want)
        f = ex.results.failed()
        s = str(ex)
        require(all(i.label in s for i in f[:3]), "%s: the error text %r does not tell the failed tests %r", what, s, [i.label for i in f])
    return res


def check(case, ctx):
    from multibag.validate.base import ValidationResults, ValidationIssue, Validator, PROB, ALL
    if "head" in case:
        return real(case, ctx)
    kw = {} if case["version"] is None else {"version": case["version"]}
    res = ValidationResults("tgt", case["want"], **kw)
    version = case["version"] or res.defversion
    model = {ERR: [], WARN: [], REC: []}
    compare(res, model, case["want"])
    cut = case["cut"]
    record(res, case["ops"][:cut], model, version)
    compare(res, model, case["want"])
    record(res, case["ops"][cut:], model, version)
    compare(res, model, case["want"])
    convert(res)
    sevs = set(o[2] for o in case["ops"])
    ctx.nontrivial(len(sevs) > 1)
    ctx.tag("outcomes", "%d severities" % len(sevs))
    for bad in (0, 3, 8, None, "x"):
        try:
            ValidationIssue("a", bad)
        except ValueError:
            pass
        else:
            fail("an issue of the unknown severity %r was made", bad)

    class V(Validator):
        def validate(self, want=PROB, results=None):
            out = super(V, self).validate(want, results)
            record(out, case["ops"], {ERR: [], WARN: [], REC: []}, None)
            return out
    model = {ERR: [], WARN: [], REC: []}
    record(ValidationResults("x", 7, **kw), case["ops"], model, version)
    for want in range(1, 8):
        r = judge(lambda: V("x"), want, "a validator")
        compare(r, dict((s, [x[:5] + (r.defversion,) for x in model[s]]) for s in model), want)
    require(V("x").is_valid() == V("x").is_valid(PROB), "is_valid() differs from is_valid(PROB)")
    # accumulation
    mine = ValidationResults("mine", case["want"], **kw)
    m2 = {ERR: [], WARN: [], REC: []}
    record(mine, case["ops"][:cut], m2, version)
    out = V("x").validate(7, mine)
    require(out is mine, "validate(..., results) did not return the results object it was given")
    record(ValidationResults("x", 7, **kw), case["ops"], m2, version)
    compare(mine, m2, case["want"])


def real(case, ctx):
    from multibag.validate import HeadBagValidator, MemberBagValidator, BagValidator, PROB
    from multibag.validate.base import ValidationResults
    hc = case["head"]
    s = c14.State(hc)
    for k, i in hc["dep"]:
        c14.depart(s, k, i)
    bd = c14.write(s, hc, ctx.dirpath("h"))
    ctx.nontrivial(bool(hc["dep"]))
    ctx.tag("real validators")
    want = case["want"]
    for cls in (HeadBagValidator, MemberBagValidator, BagValidator):
        for w in sorted({want, PROB, 7}):
            r = judge(lambda: cls(bd), w, cls.__name__)
            full = cls(bd).validate(7)
            a = [shot(i) for i in r.failed(w)]
            b = [shot(i) for i in full.failed(w)]
            require(a == b, "%s: the failed tests of severities %d are %r, but with all tests wanted %r", cls.__name__, w, a, b)
        convert(full)
        if cls is MemberBagValidator:
            continue
        mine = ValidationResults("mine", want)
        pre = []
        for i in range(case["pre"]):
            sev = (ERR, WARN, REC)[i]
            {ERR: mine._err, WARN: mine._warn, REC: mine._rec}[sev](new_issue(mine, "pre%d" % i, "recorded before"), i % 2 == 0)
            pre.append(("pre%d" % i, sev, i % 2 == 0))
        out = cls(bd).validate(7, mine)
        require(out is mine, "%s.validate(..., results) did not return the results object it was given", cls.__name__)
        for sev in (ERR, WARN, REC):
            a = [(i.label, i.specification, i.passed(), tuple(i.comments)) for i in mine.applied(sev)]
            b = [(l, "recorded before", p, ()) for l, x, p in pre if x == sev] + \
                [(i.label, i.specification, i.passed(), tuple(i.comments)) for i in full.applied(sev)]
            require(a == b, "%s: results added to a caller's object are %r, expected %r", cls.__name__, a, b)
        require(mine.ok() == (mine.count_failed(want) == 0), "%s: ok() of the accumulated results is %r", cls.__name__, mine.ok())
