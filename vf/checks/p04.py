"""P04: the C++ Huffman coders against the definition of an optimal canonical code."""
from hypothesis import strategies as st

from .. import cpp
from ..core import Target, Violation
from .p02 import FIB, optimal

RULE = ("tables of 257 frequencies (uniform, skewed, with zeros, near-Fibonacci, powers of two, up to 2^32-1, permuted) and the shipped tables, one or two "
        "given to the same coder, with texts at any bit offset, before other bits, ended by the end marker, a bit count or both, and arbitrary bits decoded "
        "under a limit, on both copies under AddressSanitizer and UBSan; non-trivial = a text of at least 3 symbols with code words of different lengths")
ASSUMPTIONS = ["the code need only be of minimum length when code words of at most 31 bits suffice (longer ones are cut by rescaling the frequencies)",
               "where the decoder stops reading after the text is not looked at: it reads 32 bits ahead"]
prepare = cpp.prepare
N = 257


@st.composite
def table(draw):
    kind = draw(st.sampled_from(["request", "response", "small", "wide", "skew", "fib", "zeros", "deep", "huge", "one", "two"]))
    if kind in ("request", "response"):
        return kind
    seed = draw(st.lists(st.integers(0, 5000), min_size=1, max_size=12))
    out = []
    for i in range(N):
        x = seed[(i * 7 + i // 5) % len(seed)]
        if kind == "small":
            f = 1 + (x + i) % 7
        elif kind == "wide":
            f = 1 + (x * (i + 3)) % 5003
        elif kind == "skew":
            f = 1 + (1 << ((x + i) % 24))
        elif kind == "fib":
            f = FIB[i] if i < min(40, 3 + seed[0] % 44) else x % 3
        elif kind == "zeros":
            f = 0 if (x + i) % 3 else x % 50
        elif kind == "deep":
            # powers of two: the only optimal tree has a leaf at every depth
            top = 8 + seed[0] % 24
            f = 1 << (top - i) if i < top else 0
        elif kind == "huge":
            f = (x * 1000003 * (i + 1) + seed[0]) & 0xffffffff
        elif kind == "one":
            f = seed[0] % 3 if i != seed[-1] % N else 100000
        else:
            f = [0, 1, 0xffffffff, 0x7fffffff][(x + i) % 4]
        out.append(f)
    mul = draw(st.sampled_from([1, 2, 3, 5, 7, 100, 255, 256]))
    return [out[i * mul % N] for i in range(N)]


@st.composite
def text(draw):
    if draw(st.booleans()):
        t = list(draw(st.binary(max_size=20)))
    else:
        t = [ord(c) for c in draw(st.text("abcde /.:;=0123456789gzip\r\n", max_size=60))]
    lead = draw(st.text("01", max_size=17))
    tail = draw(st.text("01", max_size=40))
    eof, limit = draw(st.sampled_from([(1, 0), (1, 1), (0, 1)]))
    if not eof and not t:
        eof = 1                 # nothing would end it
    return ["t", lead, t, eof, limit, tail]


@st.composite
def junk(draw):
    b = list(draw(st.binary(max_size=12)))
    return ["j", b, draw(st.integers(1, 130)), draw(st.integers(0, 1))]


def strategy():
    return st.tuples(st.sampled_from(cpp.COPIES), st.lists(table(), min_size=1, max_size=2),
                     st.lists(st.one_of(text(), text(), junk()), max_size=4)).map(list)


def bstr(hexs, n):
    return "".join("{:08b}".format(b) for b in bytes.fromhex(hexs))[:n]


def run(case, env):
    copy, tables, ops = case
    words = []
    for t in tables:
        words.append(t if isinstance(t, str) else "f " + " ".join(map(str, t)))
    for o in ops:
        if o[0] == "t":
            words.append("t x%s %s %d %d x%s" % (o[1], cpp.hx(o[2]), o[3], o[4], o[5]))
        else:
            words.append("j %s %d %d" % (cpp.hx(o[1]), o[2], o[3]))
    r = cpp.ask(env, copy, "huffman %d %s" % (len(tables), " ".join(words)))
    freqs = r["freqs"]
    code = [bstr(h, n) for h, n in r["words"]]
    for s, w in enumerate(code):
        if not 1 <= len(w) <= 32:
            raise Violation("length", "%s: symbol %d has a code word of %d bits" % (copy, s, len(w)))
    # canonical: by length, then symbol, counting up, and complete
    nxt, last = 0, 0
    for n, s, w in sorted((len(w), s, w) for s, w in enumerate(code)):
        nxt <<= n - last
        last = n
        if int(w, 2) != nxt:
            raise Violation("canonical", "%s: symbol %d has code word %s, expected %s" % (copy, s, w, "{:0{}b}".format(nxt, n)))
        nxt += 1
    if nxt != 1 << last:
        raise Violation("complete", "%s: the code words do not make a complete prefix code" % copy)
    if optimal([f * 512 or 1 for f in freqs])[1] <= 31:
        total = sum(f * len(w) for f, w in zip(freqs, code))
        best = optimal(freqs)[0]
        if total != best:
            raise Violation("optimal", "%s: the code takes %d bits for the table's text, the best code %d" % (copy, total, best))
    inv = {w: s for s, w in enumerate(code)}
    varied = False
    for o, g in zip(ops, r["texts"]):
        if o[0] == "t":
            _, lead, t, eof, limit, tail = o
            body = "".join(code[c] for c in t) + (code[256] if eof else "")
            if bstr(g["all"], g["bits"]) != lead + body + tail or g["n"] != len(body):
                raise Violation("encode", "%s: %r at offset %d is encoded as %s, expected %s" % (
                    copy, bytes(t), len(lead), bstr(g["all"], g["bits"])[len(lead):], body + tail))
            if g["dec"] != bytes(t).hex():
                raise Violation("decode", "%s: %r (offset %d, eof %d, limit %d, %d bits) is decoded as %r" % (
                    copy, bytes(t), len(lead), eof, limit, len(body), bytes.fromhex(g["dec"])))
            varied |= len(t) >= 3 and len({len(code[c]) for c in t}) > 1
        else:
            # the words that begin before the limit, zeros after the end
            _, b, n, eof = o
            bits = bstr(bytes(b).hex(), 8 * len(b)) + "0" * 400
            at, want = 0, []
            while at < n:
                k = 1
                while bits[at:at + k] not in inv:
                    k += 1
                s = inv[bits[at:at + k]]
                if s == 256:
                    if eof:
                        break
                    want = None          # no character for it: nothing says what comes out
                    break
                want.append(s)
                at += k
            if want is not None and g["dec"] != bytes(want).hex():
                raise Violation("decode", "%s: %d bits of %s are decoded as %s, expected %s" % (
                    copy, n, bits[:n], g["dec"], bytes(want).hex()))
    return {"nontrivial": varied, "labels": [copy, "tables-%d" % len(tables), "deepest-%d" % max(map(len, code))]}


TARGETS = [Target("coder", strategy, run, 4000)]
