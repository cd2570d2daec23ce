"""Generators shared by the checks. Everything they produce is JSON-able."""
from hypothesis import strategies as st

TOKEN = "abcdefghijklmnopqrstuvwxyz0123456789-_.!#$%&'*+^`|~"
VALUE_CHARS = "".join(chr(c) for c in range(0x21, 0x7f))

REAL_NAMES = [
    "accept", "accept-charset", "accept-encoding", "accept-language", "accept-ranges", "age",
    "allow", "authorization", "cache-control", "content-encoding", "content-language",
    "content-length", "content-type", "cookie", "date", "etag", "expires", "host-x", "if-match",
    "if-modified-since", "if-none-match", "last-modified", "link", "location", "p3p", "pragma",
    "referer", "server", "set-cookie", "status", "te", "transfer-encoding", "user-agent", "vary",
    "via", "warning", "www-authenticate", "x-a", "x-b", "x", "dnt", "origin", "range"]

REAL_VALUES = [
    "", "0", "1", "*/*", "gzip, deflate", "text/html", "text/html,application/xhtml+xml;q=0.9",
    "Mon, 21 Oct 2013 20:13:21 GMT", "no-cache", "max-age=0, private", "keep", "a=b; c=d",
    "\"5f3-abc\"", "en-US,en;q=0.5", "Mozilla/5.0 (X11; Linux) AppleWebKit/537.36", "1234567890",
    "public, max-age=31536000", "http://www.example.com/a/b?c=d#e", "close", "nosniff"]


def token(min_size=1, max_size=12):
    return st.text(alphabet=TOKEN, min_size=min_size, max_size=max_size)


def name():
    return st.one_of(st.sampled_from(REAL_NAMES), token())


def raw_value(max_size=24, extra=""):
    """A trimmed field value: visible ASCII with interior blanks."""
    chars = VALUE_CHARS + " " + extra
    return st.one_of(
        st.sampled_from(REAL_VALUES),
        st.text(alphabet=chars, max_size=max_size).map(lambda s: s.strip()),
    )


def latin_value(max_size=24):
    return st.one_of(raw_value(max_size),
                     st.text(alphabet=[chr(c) for c in range(0x21, 0x100) if c not in (0x7f, 0x85, 0xa0)],
                             max_size=max_size),
                     # 0x85 and 0xa0 within: white space to some tools, not to HTTP.
                     st.text(alphabet="ab=\x85\xa0\xe9", max_size=max_size).map(lambda s: s.strip("\x85\xa0")))


def long_value(lo=100, hi=400):
    """A long value that shrinks well: a unit repeated."""
    return st.builds(lambda u, n: (u * (n // len(u) + 1))[:n],
                     st.text(alphabet=VALUE_CHARS, min_size=1, max_size=7), st.integers(lo, hi))


def huge(draw, values, hi, one_in=12):
    """One history in so many also has values of up to hi characters."""
    return st.one_of(values, values, long_value(400, hi)) if draw(st.integers(1, one_in)) == 1 else values


def capped(msg, total):
    """A message without the fields that make it longer than total."""
    out = []
    for k, v in msg:
        total -= len(k) + len(v)
        if total >= 0:
            out.append([k, v])
    return out


def unique(msg):
    """A message with each name once: its first field."""
    out, seen = [], set()
    for f in msg:
        if f[0] not in seen:
            seen.add(f[0])
            out.append(f)
    return out


def few(msg, n, split=True):
    """A message without the fields that bring it above n items, a cookie's
    crumbs (if they are split) and a name's repeated values counted one by
    one."""
    out = []
    for k, v in msg:
        n -= v.count(";" if split and k == "cookie" else "\0") + 1
        if n >= 0:
            out.append([k, v])
    return out


def padded(values):
    """Now and then with blanks around."""
    return st.one_of(values, values, values, values,
                     st.builds(lambda a, v, b: " " * a + v + " " * b, st.integers(0, 2), values, st.integers(0, 2)))


def tight(draw, names, values, weight, most=20):
    """Messages picked from a few fields; and what some of these weigh in
    all, give or take: a limit under which much comes and goes, within one
    message too."""
    items = draw(st.lists(st.tuples(st.sampled_from(names), st.sampled_from(values)), min_size=2, max_size=8, unique=True))
    some = draw(st.lists(st.sampled_from(items), min_size=1, max_size=4))
    limit = max(0, sum(weight(k, v) for k, v in some) + draw(st.one_of(st.just(0), st.integers(-3, 3), st.integers(0, 40))))
    pick = st.lists(st.sampled_from(items), max_size=6, unique_by=lambda f: f[0]).map(lambda m: [list(f) for f in m])
    return draw(st.lists(pick, min_size=2, max_size=most)), limit, len(items)


@st.composite
def pseudo(draw, is_request):
    """Pseudo headers as the HAR reader makes them (after filtering)."""
    if is_request:
        return [[":method", draw(st.sampled_from(["get", "post", "head", "put"]))],
                [":path", draw(st.one_of(st.sampled_from(["/", "/a", "/a/b?c=d", "/index.html"]),
                                         st.text(alphabet=TOKEN + "/?=", max_size=12).map(lambda s: "/" + s)))],
                [":scheme", draw(st.sampled_from(["http", "https"]))],
                [":host", draw(st.sampled_from(["a.example.com", "b.example.com", "example.org", "h"]))]]
    return [[":status", draw(st.sampled_from(["200", "304", "404", "302", "500", "204"]))]]


@st.composite
def history(draw, is_request, min_msgs=1, max_msgs=8, max_headers=7, values=None, names=None,
            with_pseudo=True, multi=True, pool=6, cap=18000):
    """A list of messages; each message a list of [name, value] with unique
    names, drawn mostly from small pools shared by the whole history."""
    values = raw_value() if values is None else values
    names = name() if names is None else names
    npool = draw(st.lists(names, min_size=1, max_size=pool, unique=True))
    vpool = draw(st.lists(values, min_size=1, max_size=pool))
    one = st.one_of(st.sampled_from(vpool), st.sampled_from(vpool), values)
    nm = st.one_of(st.sampled_from(npool), st.sampled_from(npool), st.sampled_from(npool), names)
    msgs = []
    n = draw(st.integers(min_msgs, max_msgs))
    for _ in range(n):
        pairs = draw(st.lists(st.tuples(nm, one), max_size=max_headers, unique_by=lambda p: p[0]))
        m = []
        for k, v in pairs:
            if multi and draw(st.integers(0, 7)) == 0:
                more = draw(st.lists(one, min_size=1, max_size=2))
                v = "\0".join([v] + more)
            m.append([k, v])
        if with_pseudo:
            m = draw(pseudo(is_request)) + m
        msgs.append(capped(m, cap))
    return msgs


def as_dict(pairs):
    d = {}
    for k, v in pairs:
        d[k] = v
    return d


def norm(pairs_or_dict):
    """Multiset view {name: sorted list of values}: repeated fields are
    compared as multisets, cookie by crumbs, as the tool itself compares."""
    items = pairs_or_dict.items() if isinstance(pairs_or_dict, dict) else pairs_or_dict
    out = {}
    for k, v in items:
        sep = ";" if k == "cookie" else "\0"
        out.setdefault(k, []).extend(x.strip(" ") for x in v.split(sep))
    return {k: sorted(v) for k, v in out.items()}


def normset(pairs_or_dict):
    """{name: set of values}: what codecs that drop exact repeats preserve."""
    items = pairs_or_dict.items() if isinstance(pairs_or_dict, dict) else pairs_or_dict
    out = {}
    for k, v in items:
        sep = ";" if k == "cookie" else "\0"
        out.setdefault(k, set()).update(x.strip(" ") for x in v.split(sep))
    return out
