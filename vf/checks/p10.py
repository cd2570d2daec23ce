"""P10: letter counters against plain counting, and the code built from them."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .p02 import optimal

COPIES = ["delta", "delta2", "delta_bohe", "delta2_bohe"]
RULE = ("batches of operations with any subset of literal and other fields, texts over all byte values; non-trivial = at least two literals and a symbol counted twice")
ASSUMPTIONS = ["texts are byte strings"]

byte_text = st.one_of(st.text(alphabet=[chr(c) for c in range(256)], max_size=12),
                      st.text(alphabet="ab'\"\\,() \x00\x7f\x80\xff", max_size=12))


@st.composite
def operation(draw):
    out = []
    for f in ("key", "val"):
        if draw(st.integers(0, 3)) > 0:
            out.append([f, draw(byte_text)])
    if draw(st.booleans()):
        out.append(["opcode", "kvsto"])
    return out


def strategy():
    return st.tuples(st.sampled_from(COPIES), st.lists(st.lists(operation(), max_size=5), max_size=4)).map(list)


def run(case, env):
    copy, batches = case
    r = env.worker("jy").call("freak", copy=copy, batches=batches)
    if "exc" in r:
        raise Violation("exception", "%s: %s %s %s" % (copy, r["exc"], r["msg"], r["tb"]))
    r = r["ok"]
    want = [0] * 257
    n = 0
    for ops in batches:
        for o in ops:
            for f, v in o:
                if f in ("key", "val"):
                    n += 1
                    want[256] += 1
                    for c in v:
                        want[ord(c)] += 1
    if r["freqs"] != want:
        raise Violation("count", "%s: %r" % (copy, [(i, a, b) for i, (a, b) in enumerate(zip(r["freqs"], want)) if a != b] or len(r["freqs"])))
    got = r["sorted"]
    if sorted(got) != [[i, f] for i, f in enumerate(want)]:
        raise Violation("sorted", "%s: the sorted table is not the table: %r" % (copy, got[:20]))
    if any(a[1] < b[1] for a, b in zip(got, got[1:])):
        raise Violation("order", "%s: not in order of frequency: %r" % (copy, got[:20]))
    if sorted(r["printed"]) != [[i, f] for i, f in enumerate(want)]:
        raise Violation("printed", "%s: the printed table reads %r" % (copy, r["printed"][:20]))
    if 0 not in want or copy != "delta2":
        total = sum(f * l for f, l in zip(want, r["coded"]))
        if total != optimal(want)[0]:
            raise Violation("coded", "%s: coding what was counted takes %d bits, %d are enough" % (copy, total, optimal(want)[0]))
    return {"nontrivial": n >= 2 and any(f > 1 for f in want[:256]), "labels": [copy]}


TARGETS = [Target("count", strategy, run, 1200)]
