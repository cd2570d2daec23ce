"""C03: HPACK library codec: round trip of histories between two ends."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen

RULE = ("histories of 1-10 messages drawn from shared pools, values up to a few hundred bytes so that the table evicts; "
        "non-trivial = two or more messages with three or more fields in one")
ASSUMPTIONS = ["a message stays below the library's default 64 KB header-list limit; text is latin-1"]


@st.composite
def hist(draw):
    is_request = draw(st.booleans())
    vals = st.one_of(gen.latin_value(), gen.latin_value(), gen.long_value(100, 3000))
    vals = gen.huge(draw, vals, 20000)
    msgs = draw(gen.history(is_request, max_msgs=10, cap=50000, values=gen.padded(vals), pool=8))
    if draw(st.integers(0, 11)) == 0:
        # Enough entries for indices beyond the 7-bit prefix.
        extra = [["k%d" % i, "v"] for i in range(draw(st.integers(60, 130)))]
        cut = draw(st.integers(0, len(extra)))
        msgs = [extra] + [gen.unique(m + extra[cut:cut + 2]) for m in msgs[:4]] + [extra[::draw(st.integers(1, 3))]]
    return [is_request, msgs]


def run(case, env):
    is_request, msgs = case
    r = env.worker("py3").call("codec_history", name="hyper_hpack", is_request=is_request, params=[],
                               msgs=[gen.as_dict(m) for m in msgs])
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    for i, (m, o) in enumerate(zip(msgs, r["ok"])):
        got = [tuple(x) for x in o["dec"]]
        if len(got) != len(dict(got)) or dict(got) != gen.as_dict(m):
            raise Violation("round-trip", "message %d: %r, expected %r" % (i, got, m))
        if not o["bytes"] or not o["wire"] and m:
            raise Violation("wire", "message %d compresses to %r" % (i, o["wire"]))
    return {"nontrivial": len(msgs) > 1 and any(len(m) > 2 for m in msgs),
            "labels": ["msgs=%d" % min(len(msgs), 5)] + (["evicting"] if sum(len(v) for m in msgs for _, v in m) > 4096 else [])}


TARGETS = [Target("history", hist, run, 2500)]
