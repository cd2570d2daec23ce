"""H04: header comparison, against a reference over parsed items."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen

RULE = ("a header set and an edited copy (values changed/dropped/added/reordered/duplicated, blanks added, names added/removed, ignored fields changed, "
        "separator variants); non-trivial = the two dictionaries are not literally equal")
ASSUMPTIONS = ["values are not required to be non-empty; two items are the same when name and blank-trimmed value are equal"]

IGN = (":version", ":status-text", "connection")
names = st.one_of(st.sampled_from(["cookie", "cookie", "set-cookie", "x-a", "x-b", ":version", ":status-text", "connection", ":path", "via", "keep-alive", ":status"]), gen.token(max_size=4))
atom = st.one_of(st.sampled_from(["a=b", "a", "b", "", "a=1,b", "x", "c=d=e"]),
                 st.text(alphabet="abAB=,: 01\t", max_size=5))


@st.composite
def value(draw, name):
    parts = draw(st.lists(atom, min_size=1, max_size=4))
    sep = draw(st.sampled_from(["; ", ";", "\0", "\0", ";"])) if name == "cookie" else draw(st.sampled_from(["\0", "\0", ";", ", "]))
    return sep.join(parts)


@st.composite
def pair(draw):
    ns = draw(st.lists(names, max_size=6, unique=True))
    a = {n: draw(value(n)) for n in ns}
    b = dict(a)
    for _ in range(draw(st.integers(0, 3))):
        kind = draw(st.integers(0, 8))
        k = draw(st.sampled_from(sorted(b))) if b else None
        if kind == 0 or k is None:
            n = draw(names)
            b[n] = draw(value(n))
        elif kind == 1:
            del b[k]
        elif kind == 2:
            b[k] = draw(value(k))
        else:
            sep = ";" if k == "cookie" else "\0"
            parts = b[k].split(sep)
            if kind == 3:
                parts = list(reversed(parts))
            elif kind == 4:
                parts = parts + [parts[0]]
            elif kind == 5:
                parts = parts[1:] or [""]
            elif kind == 6:
                parts = [" " + p + "  " for p in parts]
            elif kind == 7:
                parts = parts + [draw(atom)]
            else:
                i = draw(st.integers(0, len(parts) - 1))
                parts[i] = draw(st.one_of(atom, st.just(parts[i] + "x"), st.just(parts[i].upper()), st.just(parts[i][:-1])))
            b[k] = sep.join(parts)
    if draw(st.booleans()):
        a, b = b, a
    return [a, b]


def items(d):
    out = set()
    for k, v in d.items():
        if k in IGN:
            continue
        for x in v.split(";" if k == "cookie" else "\0"):
            out.add((k, x.strip(" ")))
    return out


def expect(a, an, b, bn):
    """The report as {label: set of lines} (order inside a side is free)."""
    ia, ib = items(a), items(b)
    rep = {}
    if ia - ib:
        rep[an] = sorted("\t%s: %s" % x for x in ia - ib)
    if ib - ia:
        rep[bn] = sorted("\t%s: %s" % x for x in ib - ia)
    return rep


def parse(report):
    rep, cur = {}, None
    if report == "":
        return rep
    for line in report.split("\n"):
        if line.startswith("Only found in: "):
            cur = line[len("Only found in: "):]
            rep[cur] = []
        else:
            rep[cur].append(line)
    return {k: sorted(v) for k, v in rep.items()}


def run(case, env):
    a, b = case
    w = env.worker("py3")
    r = w.call("compare_headers", a=a, an="orig", b=b, bn="codec x")
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    rep, a2, b2 = r["ok"]
    if a2 != a or b2 != b:
        raise Violation("mutated", "inputs changed to %r %r" % (a2, b2))
    want = expect(a, "orig", b, "codec x")
    if (rep == "") != (not want):
        raise Violation("verdict", "report %r, expected differences %r" % (rep, want))
    if parse(rep) != want:
        raise Violation("report", "report %r, expected %r" % (rep, want))
    labels = ["differs" if want else "equal"]
    if "cookie" in a or "cookie" in b:
        labels.append("cookie")
    if not want and a != b:
        labels.append("equal-but-different-text")
    return {"nontrivial": a != b, "labels": labels}


TARGETS = [Target("compare", pair, run, 6000)]
