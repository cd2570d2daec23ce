"""C08: header-diff static Huffman coding."""
import heapq
from hypothesis import strategies as st

from ..core import Target, Violation
from ..ref import headerdiff as ref

RULE = ("(a) strings over all byte values with both static books, followed by arbitrary bytes; (b) coders over generated frequency tables; "
        "non-trivial = a string of two or more distinct symbols")
ASSUMPTIONS = ["a frequency of zero counts as one, as the coder documents"]

text = st.one_of(st.text(alphabet=[chr(i) for i in range(256)], max_size=40), st.text(alphabet="abcdefgh /=:.0123", max_size=40),
                 st.builds(lambda a, k: a * k, st.text(alphabet=[chr(i) for i in range(256)], min_size=1, max_size=4), st.integers(1, 60)))
junk = st.text(alphabet=[chr(i) for i in range(256)], max_size=4)


def static():
    return st.fixed_dictionaries({"which": st.sampled_from(["request", "response"]),
                                  "texts": st.lists(st.tuples(text, junk).map(list), min_size=1, max_size=6)})


@st.composite
def custom(draw):
    syms = draw(st.lists(st.integers(0, 255), min_size=1, max_size=30, unique=True))
    if draw(st.integers(0, 4)) == 0:
        syms = list(range(256))
    w = draw(st.sampled_from([st.integers(0, 3), st.integers(0, 100000), st.sampled_from([2 ** i for i in range(20)])]))
    stats = [[s, draw(w)] for s in syms] + [[256, draw(w)]]
    pick = st.text(alphabet=[chr(s) for s in syms], max_size=30)
    return {"which": "custom", "stats": stats, "texts": draw(st.lists(st.tuples(pick, junk).map(list), min_size=1, max_size=4))}


def best_cost(freqs):
    h = sorted(freqs)
    heapq.heapify(h)
    cost = 0
    while len(h) > 1:
        s = heapq.heappop(h) + heapq.heappop(h)
        cost += s
        heapq.heappush(h, s)
    return cost


def run(c, env):
    r = env.worker("jy").call("hd_huffman", which=c["which"], stats=c.get("stats", []), texts=c["texts"])
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    r = r["ok"]
    bk = ref.Book(r["empty"].encode("latin-1"), {int(k): v.encode("latin-1") for k, v in r["eights"].items()})
    if not bk.complete():
        raise Violation("book", "not a complete prefix code: %r, end marker %r" % (bk.words, bk.eos))
    freqs = {int(k): v or 1 for k, v in r["stats"]}
    cost = sum(freqs[s] * len(w) for s, w in bk.words.items()) + freqs[256] * len(bk.eos)
    if cost != best_cost(freqs.values()):
        raise Violation("cost", "the code needs %d bits for its own frequencies, %d suffice" % (cost, best_cost(freqs.values())))
    for (t, j), (e, d, n) in zip(c["texts"], r["texts"]):
        raw = t.encode("latin-1")
        if e.encode("latin-1") != bk.encode(raw):
            raise Violation("encode", "%r gives %r, its code words are %r" % (t, e, bk.encode(raw)))
        if d != t or n != len(e):
            raise Violation("decode", "%r followed by %r decodes to %r, %d of %d bytes used" % (t, j, d, n, len(e)))
    return {"nontrivial": any(len(set(t)) > 1 for t, _ in c["texts"])}


TARGETS = [Target("static", static, run, 1200), Target("custom", custom, run, 2400)]
