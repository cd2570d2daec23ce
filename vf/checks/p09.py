"""P09: the C++ parser of header text against a line-by-line reference."""
from hypothesis import strategies as st

from .. import cpp
from ..core import Target, Violation

RULE = ("texts of blank-line separated blocks of 'name: value' lines (odd bytes, empty values, colons, names beginning with a colon, missing and "
        "surplus line ends), the same with lines damaged, and arbitrary bytes, from a stream and from a file, on both copies under AddressSanitizer and "
        "UBSan; non-trivial = at least two blocks with fields, or a malformed line after a good one")
ASSUMPTIONS = ["an empty block at the very end may be reported or left out"]
prepare = cpp.prepare

NAME = st.one_of(st.sampled_from([":host", ":path", ":status", "a", "cookie", "x-y", "::"[:1] + "m"]),
                 st.text("abz-_A1. \t;", min_size=1, max_size=6), st.text(":", min_size=1, max_size=1))
VALUE = st.one_of(st.sampled_from(["", " ", ":", ": ", "v", "a: b", "200", "/x?y=z"]), st.text("ab: ;=\t\r\x00\xff1", max_size=10))
LINE = st.tuples(NAME, VALUE).map(lambda nv: nv[0] + ": " + nv[1])


@st.composite
def blocks(draw):
    bs = draw(st.lists(st.lists(LINE, max_size=4), max_size=6))
    if draw(st.integers(0, 2)):
        bs = [b or ["n: v"] for b in bs]
    t = "\n\n".join("\n".join(b) for b in bs) if draw(st.integers(0, 3)) else "".join("".join(l + "\n" for l in b) + "\n" for b in bs)
    t += draw(st.sampled_from(["", "\n", "\n\n"]))
    if draw(st.integers(0, 3)) == 0 and t:
        k = draw(st.integers(0, len(t) - 1))
        cut = draw(st.integers(0, 3))
        t = t[:k] + draw(st.sampled_from(["", "\n", ":", " ", "x", "\r"])) + t[k + cut:]
    return t


def strategy():
    text = st.one_of(blocks(), blocks(), blocks(), st.text("a: \n\x00:", max_size=25),
                     st.binary(max_size=60).map(lambda b: b.decode("latin-1")))
    return st.tuples(st.sampled_from(cpp.COPIES), st.sampled_from(["parse", "parse", "parsefile"]), text).map(list)


def reference(text):
    """Blocks of (name, value), or None."""
    out = [[]]
    for line in text.split("\n"):
        if line == "":
            out.append([])
            continue
        i = line.find(":", 1)
        if i < 0 or line[i + 1:i + 2] != " ":
            return None, len(out) > 1 or bool(out[0])
        out[-1].append([line[:i], line[i + 2:]])
    return out, sum(1 for b in out if b) > 1


def trim(frames):
    while frames and not frames[-1]:
        frames = frames[:-1]
    return frames


def run(case, env):
    copy, how, text = case
    r = cpp.ask(env, copy, "%s %s" % (how, cpp.hx(text.encode("latin-1"))))
    want, nontrivial = reference(text)
    if want is None:
        if r["r"] != 0:
            raise Violation("malformed", "%s: %s reports %d for the malformed text %r" % (copy, how, r["r"], text))
        return {"nontrivial": nontrivial, "labels": [copy, how, "malformed"]}
    if r["r"] != 1:
        raise Violation("refused", "%s: %s reports %d for the well-formed text %r" % (copy, how, r["r"], text))
    for kind, k in (("req", 0), ("resp", 1)):
        got = [[[bytes.fromhex(a).decode("latin-1"), bytes.fromhex(b).decode("latin-1")] for a, b in f] for f in r[kind]]
        if trim(got) != trim(want[k::2]):
            raise Violation("blocks", "%s: %s of %r gives %s %r, expected %r" % (copy, how, text, kind, got, want[k::2]))
        if len(got) > len(want[k::2]) + 1:
            raise Violation("blocks", "%s: %d %s blocks for %r" % (copy, len(got), kind, text))
    return {"nontrivial": nontrivial, "labels": [copy, how, "blocks-%d" % sum(1 for b in want if b)]}


TARGETS = [Target("text", strategy, run, 12000)]
