"""bag-info of split bags"""
import os
from hypothesis import strategies as st
from .. import bags, splitting, gens
from ..engine import fail, require

ID, LEVEL = "C05", "exploration"
CASES = {"quick": 3200, "thorough": 80000}
RULE = ("case = random valid bag with bag-info made of standard, own, repeated and Multibag-* tags x splitter or hand-made plan x "
        "info_nopass list; non-trivial: one of the transformed tags or a repeated tag is there; distinct by case hash")
MOVED = ["Bag-Size", "Internal-Sender-Identifier", "Internal-Sender-Description"]


@st.composite
def strategy(draw):
    case = draw(splitting.split_case(max_files=5, info="yes", big=False, comp=st.sampled_from(gens.PLAIN)))
    info = case["bag"]["info"]
    for k in draw(st.lists(st.sampled_from(MOVED + ["External-Identifier", "Bag-Group-Identifier", "Multi-Value"]), max_size=4)):
        if k == "Bag-Size" and any(x[0] == k for x in info):
            continue
        info.append([k, draw(gens._value)])
    if draw(st.integers(0, 3)) == 0:
        info.append([draw(st.sampled_from(["Multibag-Version", "Multibag-Reference", "Multibag-Source-Bag-Size", "Multibag-Foo"])),
                     draw(st.sampled_from(["0.4", "0.2", "xyz"]))])
    if not gens.encodable(case["bag"].get("encoding") or "UTF-8", info):
        case["bag"].pop("encoding")
    have = sorted(set(x[0] for x in info)) or ["Foo"]
    near = sorted(set(y for k in have for y in (k.split("-")[0], k.rsplit("-", 1)[0], k[:-1], k + "-X", k.lower(), k.upper(), k[1:]) if y))
    case["nopass"] = draw(st.one_of(st.none(), st.just([]), st.lists(st.one_of(
        st.sampled_from(gens.STD_TAGS + gens.OWN_TAGS + ["Payload-Oxum"]),
        st.sampled_from(have), st.sampled_from(near)), max_size=3, unique=True)))
    return case


def check(case, ctx):
    srcdir, outs, plan = splitting.do_split(case, ctx, nopass=case["nopass"])
    sf, sd = bags.source(srcdir, case["bag"])
    src = bags.info_dict(bags.parse_info(sf["bag-info.txt"]))
    nopass = case["nopass"] or []
    splitting.tag_case(case, ctx, len(outs))
    ctx.nontrivial(any(len(v) > 1 for v in src.values()) or any(k in src for k in MOVED + ["External-Identifier"]))
    if any(n in src for n in nopass):
        ctx.tag("nopass hits")
    for o in outs:
        n = os.path.basename(o)
        f, d = bags.tree(o)
        got = bags.info_dict(bags.parse_info(f["bag-info.txt"]))
        pl = [len(f[p]) for p in f if p.startswith("data/")]

        def want(key, vals):
            require(got.get(key) == vals, "%s of %r is %r, expected %r (source %r)", key, n, got.get(key), vals, src)
        allowed = {"Multibag-Version", "Multibag-Tag-Directory", "Multibag-Head-Version", "Multibag-Reference"}
        for k, v in src.items():
            if k.startswith("Multibag-"):
                continue
            if k in nopass:
                if k != "Bag-Group-Identifier" or "External-Identifier" not in src or "External-Identifier" in nopass:
                    require(k not in got, "%s, not to be passed, is in %r: %r", k, n, got.get(k))
                require("Multibag-Source-" + k not in got, "Multibag-Source-%s is in %r though %s is not to be passed", k, n, k)
                continue
            allowed.add(k)
            if k == "Payload-Oxum":
                want(k, ["%d.%d" % (sum(pl), len(pl))])
            elif k in MOVED:
                want("Multibag-Source-" + k, v)
                allowed.add("Multibag-Source-" + k)
                if k == "Internal-Sender-Identifier":
                    want(k, [n])
                elif k == "Bag-Size":
                    require(k not in got, "Bag-Size of %r is the source's: %r", n, got.get(k))
            elif k == "External-Identifier":
                want("Multibag-Source-" + k, v)
                allowed.update(["Multibag-Source-" + k, "Bag-Group-Identifier"])
                want(k, [v[0] + "/mbag:" + n])
                bg = got.get("Bag-Group-Identifier", [])
                exp = list(v)
                if "Bag-Group-Identifier" in src and "Bag-Group-Identifier" not in nopass:
                    exp += src["Bag-Group-Identifier"]
                require(sorted(bg) == sorted(exp), "Bag-Group-Identifier of %r is %r, expected %r", n, bg, exp)
            elif k == "Bag-Group-Identifier":
                if "External-Identifier" not in src or "External-Identifier" in nopass:
                    want(k, v)
            else:
                want(k, v)
        for k in got:
            require(k in allowed, "%r has a tag %s: %r that does not come from the source", n, k, got[k])
        require(got.get("Multibag-Version") == ["0.4"], "Multibag-Version of %r is %r", n, got.get("Multibag-Version"))
        head = o == outs[-1]
        require(("Multibag-Head-Version" in got) == head, "%r: Multibag-Head-Version is %r", n, got.get("Multibag-Head-Version"))
        require(head or "Multibag-Tag-Directory" not in got, "%r is not the head bag but has Multibag-Tag-Directory", n)
        if head:
            require("multibag/aggregation-info.txt" in f, "no aggregation-info.txt in the head bag")
            agg = bags.parse_info(f["multibag/aggregation-info.txt"])
            require(agg == bags.parse_info(sf["bag-info.txt"]), "aggregation-info is %r, the source's bag-info %r", agg,
                    bags.parse_info(sf["bag-info.txt"]))
