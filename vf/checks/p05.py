"""P05: the packing routines of the delta codecs: pack, unpack, position."""
from hypothesis import strategies as st

from ..core import Target, Violation

RULE = ("sequences of integers and strings of every width and string mode packed after 0 to 20 other bits and followed by others; "
        "non-trivial = two fields or more of which one starts off a byte boundary, or a boundary integer")
ASSUMPTIONS = ["integers fit the width and are below 2^31 where the width varies (indices); a string that ends in a null byte holds none; padded strings start on a byte boundary, have an "
               "end marker and a length field of whole bytes; a Huffman-coded string with a length and no end marker is not empty",
               "delta_bohe and delta2_bohe leave strings without Huffman coding unterminated on purpose (typed values), so only their "
               "Huffman-coded strings are unpacked"]

TEXT = st.one_of(st.text(st.sampled_from("abc/=;, \t%-_.0123456789ABCXYZ"), max_size=12),
                 st.text(st.characters(min_codepoint=0, max_codepoint=255), max_size=12),
                 st.text(st.characters(min_codepoint=0, max_codepoint=255), max_size=3),
                 st.sampled_from(["\x00" * 5, "\xff" * 9, "a" * 40, ""]))


@st.composite
def integer(draw):
    n = draw(st.integers(1, 32))
    v = draw(st.one_of(st.integers(0, 2 ** n - 1), st.sampled_from([0, 1, 2 ** n - 1, 2 ** (n - 1)])))
    return ["int", n, v & (2 ** n - 1)]


@st.composite
def varint(draw):
    return ["var", 0, draw(st.one_of(
        st.integers(0, 40), st.integers(0, 10000), st.integers(0, 2 ** 31 - 1),
        st.tuples(st.integers(0, 9), st.integers(-2, 2)).map(lambda t: max(0, 15 + 8 ** t[0] + t[1]))))]


@st.composite
def delta2_string(draw):
    huff = draw(st.booleans())
    v = draw(TEXT)
    if not huff:
        v = v.replace("\x00", "0")
    return ["str", [draw(st.booleans()), huff], v]


@st.composite
def delta_string(draw, bohe):
    huff = True if bohe else draw(st.booleans())
    eof = draw(st.booleans())
    size = draw(st.sampled_from([0, 9, 12, 16, 24, 32] if eof else [9, 12, 16, 24, 32]))
    pad = eof and size % 8 == 0 and draw(st.booleans())
    v = draw(TEXT)
    if not huff and eof:
        v = v.replace("\x00", "0")
    if huff and not eof and not v:
        v = "x"
    if size == 9:
        v = v[:10] if not huff else v[:8]
    return ["str", [size, eof, pad, huff], v]


def field(copy):
    if copy == "delta2":
        return st.one_of(integer(), varint(), varint(), delta2_string(), delta2_string(),
                         st.integers(0, 255).map(lambda v: ["int8", 8, v]),
                         st.integers(0, 65535).map(lambda v: ["int16", 16, v]))
    return st.one_of(integer(), delta_string(copy != "delta"), delta_string(copy != "delta"))


@st.composite
def strategy(draw):
    copy = draw(st.sampled_from(["delta", "delta2", "delta_bohe", "delta2_bohe", "delta", "delta2"]))
    which = draw(st.sampled_from(["request", "response"]))
    lead = [int(x) for x in draw(st.lists(st.booleans(), max_size=20))]
    tail = [int(x) for x in draw(st.lists(st.booleans(), max_size=10))]
    fields = draw(st.lists(field(copy), min_size=1, max_size=8))
    return [copy, which, lead, fields, tail]


def varint_ref(v):
    """The documented layout: four bits, fifteen meaning more; then three bits
    at a time, least first, the fourth bit meaning more."""
    if v < 15:
        return "{0:04b}".format(v)
    out = "1111"
    v -= 15
    while v > 7:
        out += "1{0:03b}".format(v & 7)
        v >>= 3
    return out + "0{0:03b}".format(v)


def run(case, env):
    copy, which, lead, fields, tail = case
    if copy != "delta2":
        # padding is only defined for a string that begins on a byte boundary,
        # which nothing but the coder knows: a padded string comes first
        pads = [f for f in fields if f[0] == "str" and f[1][2]]
        if pads:
            lead = lead[:len(lead) // 8 * 8]
            fields = pads[:1] + [f for f in fields if not (f[0] == "str" and f[1][2])]
    r = env.worker("jy").call("packing", copy=copy, which=which, lead=lead, fields=fields, tail=tail)
    if "exc" in r:
        raise Violation("exception", "%s: %s %s %s" % (copy, r["exc"], r["msg"], r["tb"]))
    r = r["ok"]
    off = boundary = False
    start = len(lead)
    for i, ((kind, param, val), (got, pos), end) in enumerate(zip(fields, r["out"], r["ends"])):
        if got != val:
            raise Violation("value", "%s field %d: packed %r %r %r, unpacked %r" % (copy, i, kind, param, val, got))
        if pos != end:
            raise Violation("position", "%s field %d %r %r %r: packed up to bit %d, unpacked up to bit %d" %
                            (copy, i, kind, param, val, end, pos))
        bits = r["bits"][start:end]
        want = None
        if kind == "int":
            want = "{0:0{1}b}".format(val, param)
        elif kind in ("int8", "int16"):
            want = "{0:0{1}b}".format(val, 8 if kind == "int8" else 16)
        elif kind == "var":
            want = varint_ref(val)
        if want is not None and bits != want:
            raise Violation("layout", "%s field %d %r %r %r is %s, expected %s" % (copy, i, kind, param, val, bits, want))
        off |= start % 8 != 0
        boundary |= kind == "var" and val >= 15
        start = end
    if [int(x) for x in r["bits"][:len(lead)]] != lead or [int(x) for x in r["bits"][len(r["bits"]) - len(tail):]] != tail:
        raise Violation("around", "%s: packing changed the bits around it" % copy)
    return {"nontrivial": (off and len(fields) > 1) or boundary, "labels": [copy]}


TARGETS = [Target("fields", strategy, run, 3000)]
