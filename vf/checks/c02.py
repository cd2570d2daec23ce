"""C02: deflate codecs: the output inflates, message by message, with an
independent zlib decoder; name/value blocks are read by a reference parser."""
import os
import struct
import zlib

from hypothesis import strategies as st

from ..core import Target, VERIF, Violation
from .. import gen

RULE = ("histories of 1-8 messages with values repeated across messages and occasional values beyond the zlib window; "
        "non-trivial = two or more messages, one of them with three or more fields")
ASSUMPTIONS = ["names and values are ASCII for the SPDY/3-style codec (it encodes them as such) and latin-1 for the others",
               "the SPDY/3-style codec sends the first 12 bytes of each name/value block outside the zlib stream",
               "the agreed dictionary is the SPDY/3 one shipped with the tool, fed to the stream and flushed before the first message"]

DICT = open(os.path.join(VERIF, "vf", "ref", "spdy3_dictionary.bin"), "rb").read()


@st.composite
def hist(draw, latin=False):
    is_request = draw(st.booleans())
    vals = st.one_of(gen.raw_value(), gen.raw_value(), gen.long_value(100, 300)) if draw(st.integers(0, 3)) else \
        st.one_of(gen.raw_value(), gen.long_value(2000, 40000))
    if latin:
        vals = st.one_of(vals, gen.latin_value())
    return [is_request, draw(gen.history(is_request, max_msgs=8, cap=10 ** 7, values=gen.padded(vals)))]


def primed_inflater(strategy=0):
    c = zlib.compressobj(-1, zlib.DEFLATED, 15, 8, strategy)
    pre = c.compress(DICT) + c.flush(zlib.Z_SYNC_FLUSH)
    d = zlib.decompressobj()
    if d.decompress(pre) != DICT:
        raise RuntimeError("zlib")
    return d


def call(env, name, params, is_request, msgs):
    r = env.worker("py3").call("codec_history", name=name, is_request=is_request, params=params,
                               msgs=[gen.as_dict(m) for m in msgs])
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    for o in r["ok"]:
        if not o["bytes"]:
            raise Violation("type", "compressed message is not bytes")
    return [o["wire"].encode("latin-1") for o in r["ok"]]


def inflate(d, data, i):
    try:
        out = d.decompress(data)
    except zlib.error as e:
        raise Violation("inflate", "message %d does not inflate: %s" % (i, e))
    if d.eof or d.unused_data or d.unconsumed_tail:
        raise Violation("stream-end", "the zlib stream ends inside message %d" % i)
    return out


def info(msgs):
    return {"nontrivial": len(msgs) > 1 and any(len(m) > 2 for m in msgs),
            "labels": ["msgs=%d" % min(len(msgs), 4)] +
                      (["beyond-window"] if sum(len(v) for m in msgs for _, v in m) > 32768 else [])}


def nv_block(m):
    out = b""
    for k, v in gen.as_dict(m).items():
        k, v = k.encode("ascii"), v.encode("ascii")
        out += struct.pack(">L", len(k)) + k + struct.pack(">L", len(v)) + v
    return out


def parse_nv(b, i):
    pairs, p = [], 0
    while p < len(b):
        s = []
        for _ in (0, 1):
            if p + 4 > len(b):
                raise Violation("nv", "message %d: truncated name/value block %r" % (i, b))
            n = struct.unpack(">L", b[p:p + 4])[0]
            if p + 4 + n > len(b):
                raise Violation("nv", "message %d: string beyond the block %r" % (i, b))
            s.append(b[p + 4:p + 4 + n].decode("latin-1"))
            p += 4 + n
        pairs.append(tuple(s))
    return pairs


def run_spdy(params):
    def run(case, env):
        is_request, msgs = case
        wires = call(env, "spdy3", params, is_request, msgs)
        d = primed_inflater() if params else zlib.decompressobj()
        for i, (m, w) in enumerate(zip(msgs, wires)):
            raw = min(12, len(nv_block(m)))
            block = w[:raw] + inflate(d, w[raw:], i)
            got = parse_nv(block, i)
            want = list(gen.as_dict(m).items())
            if sorted(got) != sorted(want):
                raise Violation("pairs", "message %d: %r, expected %r" % (i, got, want))
        return info(msgs)
    return run


def run_http1(name, strat):
    def run(case, env):
        is_request, msgs = case
        wires = call(env, name, [], is_request, msgs)
        d = primed_inflater(strat)
        texts = []
        for i, w in enumerate(wires):
            texts.append(inflate(d, w, i).decode("latin-1"))
        for i, (m, t) in enumerate(zip(msgs, texts)):
            r = env.worker("py3").call("format_parse", frame=gen.as_dict(m), is_request=is_request)
            if t != r["ok"]["text"]:
                raise Violation("text", "message %d inflates to %r, expected %r" % (i, t, r["ok"]["text"]))
            # and independently of the formatter:
            h = gen.as_dict(m)
            lines = [l for l in t.split("\r\n")[1:] if l]
            skip = (":method", ":path", ":version", ":status", ":status-text")
            want = sorted("%s: %s" % ("host" if k == ":host" else k, v) for k in h if k not in skip for v in h[k].split("\0"))
            if sorted(lines) != want:
                raise Violation("fields", "message %d: %r, expected %r" % (i, lines, want))
        return info(msgs)
    return run


TARGETS = [
    Target("spdy3", hist, run_spdy([]), 900),
    Target("spdy3-dict", hist, run_spdy(["dict"]), 500),
    Target("http1_gzip", lambda: hist(True), run_http1("http1_gzip", 0), 600),
    Target("http1_huffman", lambda: hist(True), run_http1("http1_huffman", zlib.Z_HUFFMAN_ONLY), 500),
]
