"""H03: connection-specific header filtering, against a reference."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen

RULE = ("header dictionaries biased to connection-specific names, with Connection token lists naming present, absent and repeated fields; "
        "non-trivial = the message has both a field to drop and a field to keep")
ASSUMPTIONS = ["field names are lower case, as the HAR reader makes them; Connection options are case-insensitive, separated by commas with "
               "optional blanks or tabs, and repeated Connection fields arrive joined with NUL"]

ALWAYS = [":status-text", ":version", "keep-alive", "connection"]
names = st.one_of(st.sampled_from(ALWAYS + ["te", "upgrade", "close", "x-a", "x-b", "cookie", ":host", ":path", "proxy-connection", "keep", "connection-x", ":status", "trailer"]), gen.token(max_size=5))


@st.composite
def headers(draw):
    ns = draw(st.lists(names, max_size=8, unique=True))
    h = {n: draw(gen.raw_value(10)) for n in ns}
    if draw(st.booleans()):
        toks = draw(st.lists(st.one_of(st.sampled_from(ns) if ns else gen.token(), gen.token(max_size=5),
                                       st.sampled_from(["close", "keep-alive", "te", "upgrade"])), min_size=1, max_size=4))
        out = ""
        for i, t in enumerate(toks):
            t = draw(st.sampled_from([t, t, t, t.upper(), t.title()]))
            out += (draw(st.sampled_from([",", ", ", ", ", " ,", "  ,  ", "\t,\t", "\0", ",,", ", ,"])) if i else "") + t
        h["connection"] = draw(st.sampled_from(["", " ", ","])) + out + draw(st.sampled_from(["", " ", "\t", ","]))
    return h


def run(h, env):
    drop = set(ALWAYS)
    if "connection" in h:
        drop |= {t.strip(" \t").lower() for t in h["connection"].replace("\0", ",").split(",")}
    want = {k: v for k, v in h.items() if k not in drop}
    # Twice in one process: no state may leak from message to message.
    for _ in (0, 1):
        r = env.worker("py3").call("filter_headers", hdrs=h)
        if "exc" in r:
            raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
        got, after, same = r["ok"]
        if got != want:
            raise Violation("filter", "expected %r, got %r" % (want, got))
        if after != h:
            raise Violation("mutated", "input %r became %r" % (h, after))
    dropped = [k for k in h if k in drop]
    listed = [k for k in dropped if k not in ALWAYS]
    return {"nontrivial": bool(dropped) and bool(want),
            "labels": (["listed-dropped"] if listed else []) + (["connection"] if "connection" in h else [])}


TARGETS = [Target("filter", headers, run, 6000)]
