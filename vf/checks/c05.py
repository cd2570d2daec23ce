"""C05: http2 codec against an independent decoder, in both directions."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen
from ..ref import http2draft as ref
from . import c04
from .codec import drive, check_items, wires

RULE = ("(a) C04's histories, every emitted block decoded by the reference; (b) generated conforming instruction streams (indexed add/remove, literals with new "
        "or indexed names, incremental and substituting, long integers) given to the codec's decoder; "
        "non-trivial = (a) three or more messages with repeats, (b) at least one eviction or substitution and two blocks")
ASSUMPTIONS = c04.ASSUMPTIONS + ["the initial table may exceed a configured size smaller than itself until the first insertion",
                                 "repeated cookie crumbs and values are compared as multisets in (b)"]


def run_emit(c, env):
    items = drive(env, "jy", name="http2", is_request=c["req"], params=c04.params(c), msgs=c["msgs"], decode=False)
    check_items(c["msgs"], items, decode=False)
    d = ref.Decoder(c["req"], c["buf"])
    kinds = set()
    for i, w in enumerate(wires(items)):
        try:
            got = d.block(ref.split_frame(w))
        except ref.WireError as e:
            raise Violation("wire", "message %d: %s (frame %r)" % (i, e, w))
        if gen.normset(got) != gen.normset(c["msgs"][i]):
            raise Violation("decoded", "message %d: the reference decodes %r, expected %r" % (i, got, c["msgs"][i]))
        kinds |= set(d.kinds)
        if d.inserted and d.size() > c["buf"]:
            raise Violation("reference", "reference table over its bound")
    r = c04.labels(c)
    r["labels"] = r["labels"] + sorted(kinds) + (["evicting"] if d.evicted else [])
    return r


big = st.integers(0, 2000)
val = st.one_of(st.text(alphabet="abc01=/", max_size=6), gen.raw_value(10),
                st.sampled_from([126, 127, 128, 129, 254, 255, 256, 300, 126, 127, 128, 16509, 16510, 16511, 20000]).map(lambda n: "v" * n))
nm = st.one_of(st.sampled_from(["x", "x-y", "cookie", ":path", "via", "etag", "n" * 127, "n" * 128]), gen.token())
oper = st.one_of(
    st.tuples(st.just("indexed"), big).map(list),
    st.tuples(st.just("indexed"), big).map(list),
    st.tuples(st.sampled_from(["literal", "incremental", "incremental", "substitution", "substitution"]),
              st.one_of(nm, big), val, big).map(list))


@st.composite
def stream(draw):
    if draw(st.integers(0, 14)) == 0:
        return {"req": draw(st.booleans()), "buf": 12000, "fill": draw(st.one_of(st.integers(90, 140), st.integers(210, 300))),
                "blocks": draw(st.lists(st.lists(oper, max_size=8), min_size=1, max_size=3))}
    return {"req": draw(st.booleans()), "fill": 0,
            "buf": draw(st.one_of(st.integers(33, 300), st.integers(0, 1600), st.integers(16000, 40000), st.sampled_from([1300, 4096, 40, 64, 99]))),
            "blocks": draw(st.lists(st.lists(oper, max_size=8), min_size=1, max_size=6))}


def build(c):
    """-> (frames, expected header lists, model). Indices are reduced modulo the
    table as it stands at that point, so every stream is conforming."""
    m = ref.Decoder(c["req"], c["buf"])
    frames, expect = [], []
    total_subst_evict = 0
    fill = [["incremental", "f%d" % i, "", 0] for i in range(c["fill"])]
    for ops in ([fill] if fill else []) + c["blocks"]:
        m.block(b"", True, False)
        data, out = b"", []
        for o in ops:
            n = len(m.table)
            if o[0] == "indexed":
                if not n:
                    continue
                one = ref.enc_int(o[1] % n, 7, 0x80)
            else:
                mode, name, value, k = o
                if mode == "substitution" and not n:
                    mode = "incremental"
                pre, flag = {"literal": (5, 0x60), "incremental": (5, 0x40), "substitution": (6, 0x00)}[mode]
                if not isinstance(name, str) and n:
                    one = ref.enc_int(name % n + 1, pre, flag)
                else:
                    nb = (name if isinstance(name, str) else "m%d" % name).encode("latin-1")
                    one = ref.enc_int(0, pre, flag) + ref.enc_int(len(nb), 0) + nb
                if mode == "substitution":
                    one += ref.enc_int(k % n, 0)
                vb = value.encode("latin-1")
                one += ref.enc_int(len(vb), 0) + vb
            if len(data) + len(one) > 60000:
                continue
            data += one
            out += m.block(one, False, False)
        out += m.block(b"", False, True)
        frames.append(ref.frame(data))
        expect.append(out)
    return frames, expect, m


def run_accept(c, env):
    frames, expect, m = build(c)
    r = env.worker("jy").call("codec_decode", name="http2", is_request=c["req"], params=c04.params(c),
                              frames=[f.decode("latin-1") for f in frames])
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    for i, e in enumerate(expect):
        o = r["ok"][i]
        if "dec_exc" in o:
            raise Violation("decode-exception", "block %d: %r" % (i, o["dec_exc"]))
        if gen.norm(o["dec"]) != gen.norm(e):
            raise Violation("decode", "block %d: %r, expected %r" % (i, o["dec"], e))
    sub = sum(o[0] == "substitution" for b in c["blocks"] for o in b)
    return {"nontrivial": len(frames) > 1 and bool(m.evicted or sub),
            "labels": (["evicting"] if m.evicted else []) + (["substitution"] if sub else []) +
                      (["table>127"] if len(m.table) > 127 else [])}


TARGETS = [Target("emit", c04.case, run_emit, 1500), Target("tight", c04.tight, run_emit, 1200), Target("accept", stream, run_accept, 3000)]
