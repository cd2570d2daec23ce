"""C01: HTTP/1 text codec: round trip and text structure against a reference."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen

RULE = ("header sets with pseudo headers, repeated (NUL-joined) values, empty values, values with colons and NUL-adjacent empties; "
        "non-trivial = at least two ordinary fields and either a repeated field or an extra pseudo header")
ASSUMPTIONS = ["names are lower-case tokens, values trimmed without line breaks; path and status are non-empty; Host is carried as :host (as the HAR reader does)"]

name = st.one_of(gen.name(), gen.token()).filter(lambda n: n != "host")
ODD = "\x09\x0b\x0c\x1c\x1d\x1e\x1f\x7f\x85\xa0\u2028"   # white space or line ends to Python, not to HTTP
val = st.one_of(gen.latin_value(16),
                gen.raw_value(), gen.long_value(100, 3000),
                st.text(alphabet=gen.VALUE_CHARS + " " + ODD * 4, max_size=10).map(lambda s: s.strip(" \t")))


@st.composite
def headers(draw, is_request):
    d = {}
    if is_request:
        d[":method"] = draw(st.one_of(st.sampled_from(["get", "post", "x"]), gen.token()))
        d[":path"] = draw(st.one_of(st.sampled_from(["/", "/a:b?c", "*", "/x?y=z", "h:443", "/" + "long/" * 200]), st.text(alphabet=gen.VALUE_CHARS, max_size=10).map(lambda t: "/" + t)))
        extra = [":scheme", ":host"]
    else:
        d[":status"] = draw(st.one_of(st.sampled_from(["200", "404", "0"]), st.integers(100, 999).map(str)))
        if draw(st.booleans()):
            d[":status-text"] = draw(st.sampled_from(["OK", "Not Found", "Very  odd: text"]))
        extra = [":host", ":x"]
    if draw(st.booleans()):
        d[":version"] = draw(st.sampled_from(["HTTP/1.1", "HTTP/1.0", "h2"]))
    for e in extra:
        if draw(st.integers(0, 2)) > 0:
            d[e] = draw(st.one_of(st.sampled_from(["h", "example.com:80", "http"]), val))
    for n in draw(st.lists(name, max_size=30 if draw(st.integers(0, 15)) == 0 else 6, unique=True)):
        vs = [draw(val)]
        while draw(st.integers(0, 3)) == 0 and len(vs) < 5:
            vs.append(draw(val))
        d[n] = "\0".join(vs)
    keys = draw(st.permutations(list(d)))
    return {k: d[k] for k in keys}


def strategy():
    return st.booleans().flatmap(lambda r: st.tuples(st.just(r), headers(r)).map(list))


def expected(h, is_request):
    w = dict(h)
    w.setdefault(":version", "HTTP/1.1")
    if not is_request:
        w.setdefault(":status-text", "?")
    return w


def ref_parse(text, is_request):
    """Independent reading of the text: (start line, [(name, value)..])."""
    if not text.endswith("\r\n\r\n"):
        raise Violation("text", "message does not end in an empty line: %r" % text)
    lines = text[:-4].split("\r\n")
    if any("\n" in l or l == "" for l in lines):
        raise Violation("text", "stray or empty line in %r" % text)
    fields = []
    for l in lines[1:]:
        n, sep, v = l[1:].partition(":")
        n = l[0] + n
        if not sep or not v.startswith(" "):
            raise Violation("text", "field line %r" % l)
        fields.append((n, v[1:]))
    return lines[0], fields


def info(h):
    plain = [k for k in h if k[0] != ":"]
    rep = any("\0" in v for v in h.values())
    return {"nontrivial": len(plain) >= 2 and (rep or ":host" in h or ":scheme" in h),
            "labels": (["repeated"] if rep else []) + (["host"] if ":host" in h else [])}


def run(case, env):
    is_request, h = case
    r = env.worker("py3").call("format_parse", frame=h, is_request=is_request)
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    text, parsed = r["ok"]["text"], r["ok"]["parsed"]
    want = expected(h, is_request)
    start, fields = ref_parse(text, is_request)
    if is_request:
        line = "%s %s %s" % (want[":method"], want[":path"], want[":version"])
        skip = (":method", ":path", ":version")
    else:
        line = "%s %s %s" % (want[":version"], want[":status"], want[":status-text"])
        skip = (":status", ":version", ":status-text")
    if start != line:
        raise Violation("start-line", "%r, expected %r" % (start, line))
    wf = sorted((("host" if k == ":host" else k), v) for k in h if k not in skip for v in h[k].split("\0"))
    if sorted(fields) != wf:
        raise Violation("fields", "text has %r, expected %r" % (fields, wf))
    if parsed != want:
        raise Violation("round-trip", "parsed %r, expected %r" % (parsed, want))
    return info(h)


def run_codec(case, env):
    is_request, msgs = case
    r = env.worker("py3").call("codec_history", name="http1", is_request=is_request, params=[], msgs=msgs)
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    for i, (m, o) in enumerate(zip(msgs, r["ok"])):
        want = expected(m, is_request)
        if dict(o["dec"]) != want:
            raise Violation("codec", "message %d: %r, expected %r" % (i, o["dec"], want))
    return {"nontrivial": len(msgs) > 1, "labels": ["history"]}


@st.composite
def text_case(draw):
    """A message text written independently of the formatter."""
    is_request, h = draw(strategy())
    eol = draw(st.sampled_from(["\r\n", "\n"]))
    w = expected(h, is_request)
    if is_request:
        out = [w[":method"] + draw(st.sampled_from([" ", "  "])) + w[":path"] + " " + w[":version"]]
        skip = (":method", ":path", ":version")
    else:
        out = [w[":version"] + " " + w[":status"] + " " + w[":status-text"]]
        skip = (":status", ":version", ":status-text")
    for k in w:
        if k in skip:
            continue
        for v in w[k].split("\0"):
            n = "Host" if k == ":host" else k
            n = draw(st.sampled_from([n, n.upper(), n.title()])) if n.isascii() else n
            out.append(n + ":" + draw(st.sampled_from(["", " ", "  "])) + v + draw(st.sampled_from(["", " "])))
    return [is_request, w, eol.join(out) + eol + eol]


def run_text(case, env):
    is_request, want, text = case
    r = env.worker("py3").call("parse_text", text=text, is_request=is_request)
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    if r["ok"] != want:
        raise Violation("parse", "parsed %r, expected %r from %r" % (r["ok"], want, text))
    return info(want)


TARGETS = [
    Target("format-parse", strategy, run, 3500),
    Target("codec", lambda: st.booleans().flatmap(lambda r: st.tuples(st.just(r), st.lists(headers(r), max_size=4)).map(list)), run_codec, 500),
    Target("parse", text_case, run_text, 1500),
]
