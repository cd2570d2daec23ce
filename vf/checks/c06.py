"""C06: header-diff codec round trip over histories and options."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen
from .codec import drive, check_items

RULE = ("histories of 1-50 messages with shared names and values (many sharing prefixes), both directions, table bounds 0-600 or large, the four delta settings, "
        "static Huffman and deflate on and off, one or two codec instances; non-trivial = three or more messages and a repeated name with a different value")
ASSUMPTIONS = ["at most 255 header fields per message (the count is one byte)", "a frame stays below 64 KB (its length field has 16 bits)",
               "field values are trimmed; the order of one name's repeated values is kept, cookie is split at its semicolons"]

LIMITS = ["/", "/?= ", "=", "ab", "/&= \\coma", ";", "'/'", "\"=&\""]


@st.composite
def options(draw):
    p = {}
    p["buffer"] = draw(st.one_of(st.none(), st.integers(0, 120), st.integers(0, 600), st.integers(600, 5000), st.sampled_from([0, 1, 2, 64, 9999, 10000, 10001, 4096])))
    p["delta"] = draw(st.sampled_from(["full", "full", "off", "bound", "bound", "max", "max"]))
    if p["delta"] == "bound":
        p["limits"] = draw(st.sampled_from(LIMITS))
    if p["delta"] == "max":
        p["max"] = draw(st.integers(0, 3))
    p["huffman"] = draw(st.integers(0, 2)) == 0
    p["deflate"] = draw(st.one_of(st.none(), st.none(), st.integers(9, 15)))
    return p


def params(p):
    out = []
    if p["buffer"] is not None:
        out.append("buffer=%d" % p["buffer"])
    if p["delta"] == "off":
        out.append("delta=false")
    if p["delta"] == "bound":
        out.append("delta_type=%s" % p["limits"])
    if p["delta"] == "max":
        out.append("delta_type=%d" % p["max"])
    if p["huffman"]:
        out.append("huffman")
    if p["deflate"] is not None:
        out.append("deflate=%d" % p["deflate"])
    return out


def bound(p):
    return 32768 if p["buffer"] is None else p["buffer"]


stem = st.sampled_from(["http://h/", "http://h/a/b?c=", "text/", "a=b&c=d", "ab", "x", "/img/1234567890abcdef/", "en, "])
values = st.one_of(st.builds(lambda a, b: (a + b).strip(), stem, gen.raw_value(8)),
                   st.builds(lambda a, b: (a + b).strip(), stem, gen.raw_value(30)),
                   gen.latin_value(10), gen.raw_value(), gen.long_value(100, 300))


def bulk(draw, msgs):
    """Now and then, enough headers for the long index and multi-byte name
    indices."""
    if draw(st.integers(0, 9)):
        return msgs
    n = draw(st.one_of(st.integers(66, 130), st.integers(180, 225)))
    extra = [["k%d" % i if draw(st.integers(0, 3)) == 0 else "z%d" % (i % 7 + 7 * (i // 7)), "val%d" % (i * 7919 % 1000)] for i in range(n)]
    cut = draw(st.integers(0, n))
    return [extra] + [m + extra[cut:cut + 20] for m in msgs[:4]]


@st.composite
def history(draw):
    is_request = draw(st.booleans())
    msgs = draw(gen.history(is_request, max_msgs=50 if draw(st.integers(0, 19)) == 0 else 14, max_headers=6, values=gen.padded(gen.huge(draw, values, 20000)), pool=5, with_pseudo=draw(st.booleans())))
    if draw(st.integers(0, 5)) == 0:
        # Names and values whose concatenations coincide.
        for m in msgs:
            k = draw(st.integers(1, 3))
            if not any(n == "abcd"[:k] for n, _ in m):
                m.append(["abcd"[:k], "abcd"[k:]])
    return is_request, [gen.few(gen.unique(m), 255) for m in bulk(draw, msgs)]


@st.composite
def case(draw):
    req, msgs = draw(history())
    return {"req": req, "opt": draw(options()), "msgs": msgs, "shared": draw(st.booleans())}


def norm(pairs):
    """Repeated values keep their order; cookie crumbs likewise."""
    items = pairs.items() if isinstance(pairs, dict) else pairs
    out = {}
    for k, v in items:
        out.setdefault(k, []).extend(x.strip() for x in v.split(";" if k == "cookie" else "\0"))
    return out


def labels(c):
    last, rep = {}, 0
    for m in c["msgs"]:
        for k, v in m:
            rep += k in last and last[k] != v
            last[k] = v
    o = c["opt"]
    return {"nontrivial": len(c["msgs"]) >= 3 and rep > 0,
            "labels": ["delta-" + o["delta"], "buffer<600" if bound(o) < 600 else "buffer>=600"] +
            (["huffman"] if o["huffman"] else []) + (["deflate"] if o["deflate"] is not None else [])}


def run(c, env):
    items = drive(env, "jy", name="headerdiff", is_request=c["req"], params=params(c["opt"]), msgs=c["msgs"], shared=c["shared"])
    check_items(c["msgs"], items, norm)
    return labels(c)


@st.composite
def tight(draw):
    """Messages picked from a few fields, and a table that holds some of them."""
    msgs, buf, _ = gen.tight(draw, ["a", "b", "c", "d", "cookie", "referer"],
                             ["", "1", "http://h/a", "http://h/b", "http://h/a?b=1", "http://h/", "x" * 20, "x" * 10 + "y", "1\0" + "2", "a=b; c=d"], lambda k, v: len(v))
    return {"req": draw(st.booleans()), "opt": dict(draw(options()), buffer=buf), "msgs": msgs, "shared": draw(st.booleans())}


@st.composite
def wide(draw):
    """More entries than the fourteen bits of a long index can number."""
    return {"req": draw(st.booleans()), "extra": draw(st.integers(1, 300)), "shared": draw(st.booleans()),
            "at": draw(st.lists(st.one_of(st.sampled_from([62, 63, 64, 65, 16445, 16446, 16447, 16448]), st.integers(0, 17000)), min_size=1, max_size=20))}


def wide_history(c):
    total = 16447 + c["extra"]
    msgs = [[["n%d" % (i % 500), "%d" % (i // 500)] for i in range(k, min(total, k + 200))] for k in range(0, total, 200)]
    last = {}
    for i in list(range(total - total % 200, total)) + c["at"]:
        last.setdefault("n%d" % (i % total % 500), "%d" % (i % total // 500))
    return msgs + [[list(p) for p in last.items()]] * 2


def run_wide(c, env):
    msgs = wide_history(c)
    items = drive(env, "jy", timeout=600, name="headerdiff", is_request=c["req"], params=["buffer=1000000", "delta=false"], msgs=msgs, shared=c["shared"])
    check_items(msgs, items, norm)
    return {"nontrivial": True, "labels": ["wide"], "sample": c}


TARGETS = [Target("history", case, run, 2000), Target("tight", tight, run, 1600), Target("wide", wide, run_wide, 3)]
