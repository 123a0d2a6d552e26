"""order of profile versions, and what it decides for head bags"""
import os
from hypothesis import strategies as st
from .. import bags
from ..engine import fail, require

ID, LEVEL = "C20", "exploration"
CASES = {"quick": 40000, "thorough": 2000000}
RULE = ("case = three versions (1-5 numeric fields, values that differ in digits, zero-padded text, shared prefixes), each given as text "
        "or tuple; every pair is compared by all six operators with the right and the left operand as object, text or tuple; "
        "non-trivial: two of them share the first field or are equal in value; distinct by case hash")

_num = st.one_of(st.integers(0, 3), st.sampled_from([9, 10, 11, 99, 100, 2, 20, 200]), st.integers(0, 10**12))


@st.composite
def strategy(draw):
    base = draw(st.lists(_num, min_size=1, max_size=5))
    out = [base]
    for _ in range(2):
        how = draw(st.integers(0, 4))
        if how == 0:
            out.append(draw(st.lists(_num, min_size=1, max_size=5)))
        else:
            v = list(draw(st.sampled_from(out)))
            if how == 1:
                v = v[:draw(st.integers(1, len(v)))]
            elif how == 2:
                v = v + [draw(st.sampled_from([0, 0, 1, 10]))]
            elif how == 3:
                i = draw(st.integers(0, len(v) - 1))
                v[i] = draw(_num)
            out.append(v)
    return {"v": [[v, draw(st.sampled_from(["str", "str", "tuple"])), draw(st.sampled_from([0, 0, 0, 1, 2]))] for v in out]}


def forms(v, kind, pad):
    """raw forms with this value: the given one first"""
    s = ".".join("0" * pad + str(n) for n in v)
    t = tuple(v)
    return (s, t) if kind == "str" else (t, s)


def check(case, ctx):
    from multibag.constants import Version
    import operator as op
    vals = []
    for v, kind, pad in case["v"]:
        raw = forms(v, kind, pad)
        ver = Version(raw[0])
        text = raw[0] if kind == "str" else ".".join(str(n) for n in v)
        require(str(ver) == text, "the text of Version(%r) is %r", raw[0], str(ver))
        require(list(ver.fields) == list(v), "the fields of Version(%r) are %r", raw[0], ver.fields)
        vals.append((list(v), ver, raw))
    ops = [("<", op.lt), ("<=", op.le), ("==", op.eq), ("!=", op.ne), (">", op.gt), (">=", op.ge)]
    n = 0
    for a, va, ra in vals:
        for b, vb, rb in vals:
            for name, f in ops:
                want = f(a, b)
                for l, r in [(va, vb), (va, rb[0]), (va, rb[1]), (ra[0], vb), (ra[1], vb)]:
                    got = f(l, r)
                    n += 1
                    require(bool(got) == want, "%r %s %r is %r", str(l) if l is va else l, name, str(r) if r is vb else r, got)
            if a is not b and (a == b or a[0] == b[0]):
                ctx.nontrivial()
                ctx.tag("equal values" if a == b else "one a prefix" if a[:len(b)] == b or b[:len(a)] == a else "shared first field")
                if any(len(str(x)) != len(str(y)) for x, y in zip(a, b)):
                    ctx.tag("fields of different digits")
    srt = sorted([v for _, v, _ in vals])
    require([list(s.fields) for s in srt] == sorted(a for a, _, _ in vals), "sorting gives %r", [str(s) for s in srt])
    ctx.add("comparisons", n)
