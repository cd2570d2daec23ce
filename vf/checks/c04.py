"""C04: http2 codec round trip over histories."""
from hypothesis import strategies as st

from ..core import Target
from .. import gen
from .codec import drive, check_items

RULE = ("histories of 1-50 messages with shared name/value pools, table sizes from 0 to 65536 (mostly ones holding 1-10 entries), both directions, "
        "separate or shared codec instance; non-trivial = three or more messages and at least one field repeated from an earlier message")
ASSUMPTIONS = ["a frame stays below 64 KB (its length field has 16 bits)", "repeated equal values of one field count once, as in the tool's own comparison",
               "blanks around a value do not count"]


@st.composite
def case(draw):
    is_request = draw(st.booleans())
    small = draw(st.integers(0, 3)) > 0
    buf = draw(st.one_of(st.integers(34, 420), st.sampled_from([0, 32, 33, 64, 100, 1200, 1300, 1400])) if small else
               st.sampled_from([4096, 2000, 1500, 4096, 65536]))
    vals = st.one_of(gen.latin_value(8), gen.latin_value(8), gen.raw_value(), gen.long_value(30, 400))
    vals = gen.huge(draw, vals, 20000)
    msgs = draw(gen.history(is_request, max_msgs=50 if draw(st.integers(0, 19)) == 0 else 14, cap=30000, max_headers=6, values=gen.padded(vals), pool=5,
                            with_pseudo=draw(st.integers(0, 3)) > 0))
    if small and msgs and draw(st.booleans()):
        # A table that holds about one message, or two: within its loops the
        # encoder then evicts what it has just dealt with.
        about = [sum(len(k) + len(v) + 32 for k, v in draw(st.sampled_from(msgs))) for _ in range(draw(st.integers(1, 2)))]
        buf = max(0, min(sum(about) + draw(st.integers(-40, 40)), 6000))
    if draw(st.integers(0, 11)) == 0:
        # Enough entries for indices beyond the 7-bit prefix.
        buf = 16384
        n = draw(st.one_of(st.integers(90, 150), st.integers(200, 300)))
        extra = [["k%d" % i, "v"] for i in range(n)]
        cut = draw(st.integers(0, n))
        msgs = [extra] + [gen.unique(m + extra[cut:cut + draw(st.sampled_from([0, 1, 3]))]) for m in msgs[:4]] + [extra[cut:]]
    return {"req": is_request, "buf": buf, "msgs": msgs, "shared": draw(st.booleans())}


def params(c):
    return [] if c["buf"] == 4096 else ["buffer_size=%d" % c["buf"]]


def labels(c):
    msgs = c["msgs"]
    seen, rep = set(), 0
    for m in msgs:
        for k, v in m:
            rep += (k, v) in seen
        seen |= {(k, v) for k, v in m}
    return {"nontrivial": len(msgs) >= 3 and rep > 0,
            "labels": ["buf<1500" if c["buf"] < 1500 else "buf>=1500"] + (["bulk"] if any(len(m) > 60 for m in msgs) else []) + (["cookie"] if any(k == "cookie" for m in msgs for k, _ in m) else [])}


def run(c, env):
    items = drive(env, "jy", name="http2", is_request=c["req"], params=params(c), msgs=c["msgs"], shared=c["shared"])
    check_items(c["msgs"], items, gen.normset)
    return labels(c)


@st.composite
def tight(draw):
    """Messages picked from a few fields, and a table that holds some of them."""
    msgs, buf, _ = gen.tight(draw, "abcdef", ["", "", "1", "2", "x" * 5, "x" * 20, "1\0" + "2"], lambda k, v: 33 + len(v))
    return {"req": draw(st.booleans()), "buf": buf, "msgs": msgs, "shared": draw(st.booleans())}


TARGETS = [Target("history", case, run, 2000), Target("tight", tight, run, 1600)]
