"""P02: the Python Huffman coders against the definition of an optimal prefix code."""
import heapq

from hypothesis import strategies as st

from ..core import Target, Violation

COPIES = ["delta", "delta2", "bohe", "delta_bohe", "delta2_bohe"]
RULE = ("frequency tables of 2 to 257 symbols (uniform, skewed, with zeros, near-Fibonacci, shuffled) and the shipped tables, with texts placed at any "
        "bit offset before other bits; non-trivial = a text of at least 3 symbols with code words of different lengths")
ASSUMPTIONS = ["tables name the symbols 0..n-1 once each; delta2's code need only be of minimum length when no frequency is 0 and code words of up to 32 bits suffice; an end marker needs a table of 257 symbols"]


def depth_ok(freqs):
    return optimal(freqs)[1] <= 32 and optimal([f * 512 or 1 for f in freqs])[1] <= 32


def optimal(freqs):
    """(minimum total length, greatest depth of one optimal tree)"""
    h = [(f, i, 0) for i, f in enumerate(freqs)]
    heapq.heapify(h)
    total, i = 0, len(freqs)
    while len(h) > 1:
        a = heapq.heappop(h)
        b = heapq.heappop(h)
        total += a[0] + b[0]
        heapq.heappush(h, (a[0] + b[0], i, max(a[2], b[2]) + 1))
        i += 1
    return total, h[0][2]


FIB = [1, 1]
while len(FIB) < 40:
    FIB.append(FIB[-1] + FIB[-2])


@st.composite
def dyadic(draw):
    """Frequencies 2^-depth of the leaves of a drawn binary tree: its depths
    are the only optimal ones. Deep, with few or many distinct depths."""
    depths = [0]
    n = draw(st.sampled_from([2, 5, 33, 60, 120, 257]))
    limit = draw(st.sampled_from([12, 20, 31, 32, 33, 36]))
    pick = draw(st.lists(st.integers(-3, 3), min_size=1, max_size=8))
    i = 0
    while len(depths) < n:
        i += 1
        depths.sort()
        k = min(max(pick[i % len(pick)], -len(depths)), len(depths) - 1)
        if depths[k] >= limit:
            k = 0
        d = depths.pop(k)
        depths += [d + 1, d + 1]
    top = max(depths)
    m = draw(st.sampled_from([1, 3, 7]))
    return [1 << (top - depths[j * m % n]) for j in range(n)] if n % m else [1 << (top - d) for d in depths]


@st.composite
def table(draw):
    if draw(st.integers(0, 3)) == 0:
        return draw(dyadic())
    n = draw(st.sampled_from([2, 3, 4, 5, 7, 8, 17, 32, 33, 128, 256, 257, 257, 257]))
    kind = draw(st.sampled_from(["small", "wide", "skew", "fib", "zeros", "chain"]))
    # a few drawn numbers spread over the table: shrinks and stays varied
    seed = draw(st.lists(st.integers(0, 5000), min_size=1, max_size=12))
    out = []
    for i in range(n):
        x = seed[(i * 7 + i // 5) % len(seed)]
        if kind == "small":
            f = 1 + (x + i) % 7
        elif kind == "wide":
            f = 1 + (x * (i + 3)) % 5003
        elif kind == "skew":
            f = 1 + (1 << ((x + i) % 19))
        elif kind == "chain":
            f = 1 << (20 - i) if i < seed[0] % 13 else 1 + (x % 2 if len(seed) > 3 else 0)
        elif kind == "fib":
            f = FIB[(seed[0] + i) % (22 if n > 40 else n)] if i < 28 or n < 40 else 1 + (x % 3)
        else:
            f = x if (x + i) % 3 == 0 else 0
        out.append(f)
    for _ in range(draw(st.sampled_from([0, 0, 1, 3]))):
        out[draw(st.integers(0, n - 1))] = draw(st.one_of(st.integers(0, 10), st.integers(0, 10 ** 6)))
    return out


@st.composite
def text(draw, n):
    eof = n == 257 and draw(st.integers(0, 3)) > 0
    syms = draw(st.lists(st.one_of(st.integers(0, min(n, 256) - 1), st.sampled_from([0, min(n, 256) - 1])), min_size=0 if eof else 1, max_size=12))
    if draw(st.integers(0, 9)) == 0:
        syms = syms * draw(st.integers(2, 20))
    bits = st.lists(st.integers(0, 1), max_size=11)
    return [syms, eof, draw(bits), draw(bits)]


@st.composite
def strategy(draw):
    copy = draw(st.sampled_from(COPIES))
    if draw(st.integers(0, 5)) == 0:
        t, n = draw(st.sampled_from(["request", "response"])), 257
    else:
        t = draw(table())
        n = len(t)
    perm = None
    if not isinstance(t, str) and draw(st.booleans()):
        k = draw(st.sampled_from([1, 2, 3, 5, 11]))
        perm = sorted(range(n), key=lambda i: (i * k % n, i))
    return [copy, t, perm, draw(st.lists(text(n), max_size=3))]


def run(case, env):
    copy, t, perm, texts = case
    w = env.worker("jy")
    r = w.call("huffman", copy=copy, table=t, texts=texts, perm=perm)
    if "exc" in r:
        raise Violation("exception", "%s: %s %s %s" % (copy, r["exc"], r["msg"], r["tb"]))
    r = r["ok"]
    words = r["words"]
    freqs = [f for s, f in sorted(r["freqs"])]
    # complete prefix code
    order = sorted(words)
    for a, b in zip(order, order[1:]):
        if b.startswith(a):
            raise Violation("prefix", "%s: code word %s begins %s" % (copy, a, b))
    longest = max(len(x) for x in words)
    if sum(1 << (longest - len(x)) for x in words) != 1 << longest:
        raise Violation("complete", "%s: the code words %r leave gaps" % (copy, words[:40]))
    # optimal
    if copy != "delta2" or (0 not in freqs and depth_ok(freqs)):
        total = sum(f * len(x) for f, x in zip(freqs, words))
        best = optimal(freqs)[0]
        if total != best:
            raise Violation("optimal", "%s: total length %d, minimum %d" % (copy, total, best))
    # canonical
    if copy == "delta2":
        want = sorted(range(len(words)), key=lambda i: (len(words[i]), i))
        code, prev = 0, 0
        for s in want:
            code <<= len(words[s]) - prev
            prev = len(words[s])
            if format(code, "0%db" % prev) != words[s]:
                raise Violation("canonical", "symbol %d has code word %s, canonical is %s" % (s, words[s], format(code, "0%db" % prev)))
            code += 1
    if perm:
        r2 = w.call("huffman", copy=copy, table=t, texts=[])
        if r2.get("ok", {}).get("words") != words:
            raise Violation("order", "%s: code words change with the order of the table" % copy)
    # lossless
    nontrivial = False
    for (syms, eof, lead, tail), got in zip(texts, r["texts"]):
        bits = "".join(words[s] for s in syms) + (words[256] if eof else "")
        if got["all"] != "".join(map(str, lead)) + bits or got["n"] != len(bits) or "".join(format(x, "08b") for x in got["enc"])[:len(bits)] != bits:
            raise Violation("encode", "%s: %r encodes to %r, expected %s" % (copy, syms, got, bits))
        if got["dec"] != syms:
            raise Violation("decode", "%s: %r decodes to %r" % (copy, syms, got["dec"]))
        if got["rest"] != tail or not got["left"]:
            raise Violation("consume", "%s: after decoding %r, %r is left of %r" % (copy, syms, got["rest"], tail))
        if "dec2" in got and got["dec2"] != syms:
            raise Violation("decode-list", "%s: Decode gives %r for %r" % (copy, got["dec2"], syms))
        nontrivial |= len(syms) >= 3 and len({len(words[s]) for s in syms}) > 1
    return {"nontrivial": nontrivial, "labels": [copy, "shipped" if isinstance(t, str) else "n%d" % len(t)]}


TARGETS = [Target("code", strategy, run, 1600)]
