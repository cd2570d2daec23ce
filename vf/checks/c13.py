"""C13: what the value-aware codecs emit, read by independent readers."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen
from ..ref import bohe as R, bohe_wire as W
from ..ref.http2draft import WireError
from . import c12, c14
from .codec import drive, check_items

COPIES = ["bohe", "delta_bohe", "delta2_bohe"]
HOSTS = ["www.example.com", "static.example.com", "example.org", "a.b.c.d", "h"]
RULE = ("histories of 1-10 messages over 1-3 hosts of typed fields (assembled from parts as in C14), cookies of up to four crumbs and untyped fields from pools shared by the "
        "history, messages of up to 520 fields, both directions, through each of the three codecs; non-trivial = a field that a later message of the history repeats")
ASSUMPTIONS = c14.ASSUMPTIONS + [
    "what is sent fits the codec's storage, so that nothing is evicted (1000 values, 14 KB)", "a frame stays below 64 KB",
    "a name has at most 127 characters", "typed values have no terminator on the wire: the reader of the delta variants is told the values to look for and "
    "accepts a frame if one reading of it gives the message",
    "the Huffman code words are learnt from the coder (judged by P02)", "delta_bohe's numbers of built-in entries depend on the interpreter's hashing: learnt from "
    "fresh instances given one built-in field each", "repeated cookie crumbs count once"]


@st.composite
def case(draw, bulk=True):
    copy = draw(st.sampled_from(COPIES))
    req = draw(st.booleans())
    plain = st.tuples(st.one_of(gen.name(), st.sampled_from([":path", ":host", ":scheme", ":version", "x", "a" * 127, "user-agent", "referer", "status"])),
                      st.one_of(gen.latin_value(12), gen.raw_value(), st.sampled_from(["", "/", "https", "http", "OK", "1.1", "keep-alive", "a\0b", "\0"]))).filter(
        lambda p: p[0] not in W.TYPED).map(lambda p: c14.item("plain", p[1], p[0], p[1]))
    typed = c14.value().filter(lambda i: i[0] not in ("cookie", "plain"))
    pool = draw(st.lists(st.one_of(plain, typed, plain), min_size=1, max_size=10))
    crumbs = draw(st.lists(st.tuples(c14.TOK, c14.CV).map(list), min_size=1, max_size=4))
    msgs, hosts = [], []
    hp = draw(st.lists(st.sampled_from(HOSTS), min_size=1, max_size=3))
    for _ in range(draw(st.integers(1, 10))):
        m = draw(st.lists(st.sampled_from(pool), max_size=7, unique_by=lambda i: i[1]))
        if draw(st.integers(0, 2)) == 0:
            cs = draw(st.lists(st.sampled_from(crumbs), min_size=1, max_size=4))
            m = m + [c14.item("cookies", cs, "cookie", draw(st.sampled_from(["; ", ";", ";  "])).join("%s=%s" % tuple(c) for c in cs))]
        msgs.append(m)
        hosts.append(draw(st.sampled_from(hp)))
    if bulk and draw(st.integers(0, 19)) == 13:
        # A message of many fields, then every second of them.
        big = draw(st.sampled_from([255, 256, 257, 300] if copy == "delta2_bohe" else [255, 256, 257, 300, 512, 513]))
        return {"copy": copy, "req": req, "msgs": msgs[:2], "hosts": hosts[:2], "big": big}
    return {"copy": copy, "req": req, "msgs": msgs, "hosts": hosts, "big": 0}


def expand(c):
    msgs, hosts = c["msgs"], c["hosts"]
    if c["big"]:
        extra = [c14.item("plain", "v", "k%d" % i, "v") for i in range(c["big"])]
        msgs = msgs + [extra, extra[::2]]
        hosts = hosts + hosts[:1] * 2
    return msgs, hosts


def fields(copy, req, m):
    """-> the (name, encoded value) pairs that a frame for this message stands for."""
    out = []
    for kind, key, text, parts in m:
        if copy == "bohe" and key not in W.REGISTERED:      # literal
            out.append((key, text.encode("latin-1")))
        elif kind == "cookies":
            if copy == "bohe":
                n, _, v = text.partition("=")
                out.append((key, R.cookie([[n, v]])))
            else:
                out += sorted({(key, R.cookie([c])) for c in parts})
        else:
            out.append((key, c14.expected(copy, req, kind, parts)))
    return out


_defaults = {}


def defaults(env, req):
    """Numbers of delta_bohe's built-in names and entries, probed."""
    if req not in _defaults:
        book = c12.book(env, "delta_bohe", req)
        keys, entries = {}, {}
        some = dict(W.SOME)
        some["cache-control"] = ("max-age=77", R.cache_control("delta_bohe", req, {"max-age": 77}))
        probe = [[k, "probe-%d" % i] if k not in W.TYPED else [k, some[k][0]] for i, k in enumerate(W.BUILTIN)]
        w = drive(env, "jy", name="delta_bohe", is_request=req, params=[], msgs=[probe], decode=False)
        check_items([probe], w, decode=False)
        want = {(k, v.encode() if k not in W.TYPED else some[k][1]) for k, v in probe}
        for op in W.ops(w[0]["wire"].encode("latin-1"), False, book, want, lambda i: None):
            if op[0] != "clone":
                raise WireError("a new value of a built-in name is not a clone: %r" % (op,))
            keys[op[1]] = op[2]
        for k, v, e in W.REACHABLE:
            w = drive(env, "jy", name="delta_bohe", is_request=req, params=[], msgs=[[[k, v]]], decode=False)
            check_items([[[k, v]]], w, decode=False)
            o = list(W.ops(w[0]["wire"].encode("latin-1"), False, book, {(k, e)}, keys.get))
            if len(o) != 1 or o[0][0] != "toggl":
                raise WireError("built-in %s: %r is sent as %r" % (k, v, o))
            entries[o[0][1]] = (k, e)
        _defaults[req] = keys, entries
    return _defaults[req]


def run(c, env):
    copy, req = c["copy"], c["req"]
    parts, hosts = expand(c)
    msgs = [[[k, t] for _, k, t, _ in m] for m in parts]
    items = drive(env, "jy", name=copy, is_request=req, params=[], msgs=msgs, hosts=hosts, decode=False)
    check_items(msgs, items, decode=False)
    book = c12.book(env, copy, req)
    kinds, full = {}, 0
    if copy != "bohe":
        try:
            peer = W.Peer1(book, *defaults(env, req)) if copy == "delta_bohe" else W.Peer2(book)
        except WireError as e:
            raise Violation("built-in", str(e))
    for i, (m, o) in enumerate(zip(parts, items)):
        want = fields(copy, req, m)
        data = o["wire"].encode("latin-1")
        try:
            if copy == "bohe":
                got = W.block(data, book)
                want = [(k, v, "\0" in t) for (k, v), (_, t) in zip(want, msgs[i])]
            else:
                got = peer.frame(data, want)
                if copy == "delta2_bohe" and (peer.count > 1024 or peer.size > 16 * 1024):
                    full = 1        # what follows an eviction is not judged
                    break
        except WireError as e:
            raise Violation("wire", "%s, message %d of %d: %s; %r" % (copy, i, len(msgs), e, want))
        if sorted(got) != sorted(want):
            raise Violation("message", "%s, message %d of %d: reads as %r, expected %r" % (copy, i, len(msgs), sorted(got), sorted(want)))
    if copy != "bohe":
        kinds = peer.kinds
    seen, back = set(), 0
    for m in msgs:
        s = set(map(tuple, m))
        back += bool(s & seen)
        seen |= s
    return {"nontrivial": back > 0, "labels": [copy] + sorted(kinds) + (["bulk"] if c["big"] else []) + ["full"] * full}


TARGETS = [Target("history", case, run, 2400)]
