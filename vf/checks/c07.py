"""C07: header-diff frames against an independent reader, in both directions."""
import os
from hypothesis import strategies as st

from ..core import Target, Violation, REPO
from .. import gen
from ..ref import headerdiff as ref
from . import c06
from .codec import drive, check_items, wires

RULE = ("(a) C06's histories and options, every frame read by an independent decoder, with what the options promise about representations; "
        "(b) generated conforming instruction streams given to the codec's decoder; "
        "non-trivial = (a) as C06, (b) two or more frames with a delta or substitution")
ASSUMPTIONS = c06.ASSUMPTIONS + ["with deflate the dictionary both ends are primed with is the one SPDY/3 fixes",
                                 "the Huffman code book is learnt from the coder's encodings of single symbols (judged by C08)"]

_books = {}


def book(env, is_request):
    if is_request not in _books:
        r = env.worker("jy").call("hd_book", which="request" if is_request else "response")
        if "exc" in r:
            raise Violation("book-exception", "%r" % r)
        raw = [x.encode("latin-1") for x in r["ok"]]
        _books[is_request] = ref.Book(raw[0], {c: raw[c + 1] for c in range(256)})
    bk = _books[is_request]
    if bk.eos is None:
        raise Violation("book", "the static code book is not a complete prefix code")
    return bk


def limits(o):
    # Quotes around the list are optional, \coma stands for a comma.
    return o["limits"].strip("'\"").replace("\\coma", ",")


def run_emit(c, env):
    o = c["opt"]
    items = drive(env, "jy", name="headerdiff", is_request=c["req"], params=c06.params(o), msgs=c["msgs"], decode=False)
    check_items(c["msgs"], items, decode=False)
    d = ref.Decoder(c["req"], c06.bound(o), book(env, c["req"]) if o["huffman"] else None, o["deflate"])
    first = True
    for i, w in enumerate(wires(items)):
        try:
            if first and o["deflate"] is not None:
                prime(d, o["deflate"])
            first = False
            got = d.frame(w)
        except (ref.WireError, ref.zlib.error) as e:
            raise Violation("wire", "message %d: %s (frame %r)" % (i, e, w))
        if c06.norm(got) != c06.norm(c["msgs"][i]):
            raise Violation("decoded", "message %d: the reference decodes %r, expected %r" % (i, got, c["msgs"][i]))
        for base, plen, value, uses in d.deltas:
            if o["delta"] == "off":
                raise Violation("delta-off", "message %d uses a delta" % i)
            if o["delta"] == "bound" and plen and value[plen - 1] not in limits(o):
                raise Violation("delta-bound", "message %d: shared prefix %r" % (i, value[:plen]))
            if o["delta"] == "max" and uses >= o["max"]:
                raise Violation("delta-max", "message %d: an entry serves as reference for the %dth time" % (i, uses + 1))
    r = c06.labels(c)
    r["labels"] += sorted(d.kinds)
    return r


def prime(d, window):
    """The inflater starts after the dictionary: what a compressor with these
    settings emits for it first."""
    comp = ref.zlib.compressobj(-1, ref.zlib.DEFLATED, window)
    data = comp.compress(dictionary()) + comp.flush(ref.zlib.Z_SYNC_FLUSH)
    d.inflater.decompress(data)


def dictionary():
    return open(os.path.join(os.path.dirname(ref.__file__), "spdy3_dictionary.bin"), "rb").read()


n = st.integers(0, 400)
val = st.one_of(c06.stem, gen.latin_value(8), st.sampled_from([126, 127, 128, 129, 300]).map(lambda k: "v" * k))
nm = st.one_of(st.sampled_from(["x", "x-y", "cookie", "via", "n" * 127, "n" * 128]), gen.token())
oper = st.one_of(st.tuples(st.just("indexed"), n).map(list),
                 st.tuples(st.just("literal"), st.sampled_from([0, 2, 2, 2, 3]), st.one_of(nm, n), val, n).map(list),
                 st.tuples(st.just("delta"), st.sampled_from([0, 2, 3]), n, n, val).map(list))


@st.composite
def stream(draw):
    return {"req": draw(st.booleans()), "buf": draw(st.one_of(st.integers(0, 400), st.just(32768))),
            "huffman": draw(st.integers(0, 3)) == 0, "fill": draw(st.sampled_from([0] * 9 + [70, 140])),
            "blocks": draw(st.lists(st.lists(oper, max_size=8), min_size=1, max_size=6))}


def indexed(i):
    if i < 64:
        return bytes([0x80 | i])
    i -= 64
    if i < 0x3fff:
        return (0xc000 | i).to_bytes(2, "big")
    return b"\xff\xff" + ref.enc_int(i - 0x3fff, 0)


def build(c, bk):
    m = ref.Decoder(c["req"], c["buf"], bk)
    frames, expect = [], []
    fill = [["literal", 2, "f%d" % (i % 50), "", 0] for i in range(c["fill"])]
    for ops in ([fill] if fill else []) + c["blocks"]:
        data, out = b"", []
        for o in ops:
            size, cnt = m.size(), len(m.table)
            if o[0] == "indexed":
                if not cnt:
                    continue
                i = o[1] % cnt
                one = indexed(i)
            else:
                mode = o[1]
                if mode == 3 and not cnt:
                    mode = 2
                if o[0] == "delta":
                    if not cnt:
                        continue
                    r = o[2] % cnt
                    base = m.table[r][1]
                    p = o[3] % (len(base) + 1)
                    value = base[:p] + o[4]
                else:
                    value = o[3]
                    r = o[4] % cnt if cnt else 0
                new = size + (len(value) if mode == 2 else len(value) - len(m.table[r][1]) if mode == 3 else 0)
                if new > c["buf"]:
                    mode = 0
                bits, flag = (5, 0) if mode == 0 else (4, mode << 4)
                if o[0] == "delta":
                    one = ref.enc_int(r, bits, flag | 0x40) + ref.enc_int(p, 0)
                    value = o[4]
                else:
                    if isinstance(o[2], str):
                        one = ref.enc_int(0, bits, flag) + ref.enc_string(o[2], bk)
                    else:
                        one = ref.enc_int(o[2] % len(m.names) + 1, bits, flag)
                    if mode == 3:
                        one += ref.enc_int(r, 0)
                one += ref.enc_string(value, bk)
            data += one
            out += m.block(b"\x01" + one)
        frames.append(ref.frame(bytes([len(out)]) + data))
        expect.append(out)
    return frames, expect, m


def run_accept(c, env):
    bk = book(env, c["req"]) if c["huffman"] else None
    frames, expect, m = build(c, bk)
    params = ["buffer=%d" % c["buf"]] + (["huffman"] if bk else [])
    r = env.worker("jy").call("codec_decode", name="headerdiff", is_request=c["req"], params=params,
                              frames=[f.decode("latin-1") for f in frames])
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    for i, e in enumerate(expect):
        o = r["ok"][i]
        if "dec_exc" in o:
            raise Violation("decode-exception", "block %d: %r" % (i, o["dec_exc"]))
        want = {}
        for k, v in e:
            sep = ";" if k == "cookie" else "\0"
            want[k] = want[k] + sep + v if k in want else v
        if c06.norm(want) != c06.norm(o["dec"]):
            raise Violation("decode", "block %d: %r, expected %r" % (i, o["dec"], e))
    return {"nontrivial": len(frames) > 1 and any(k.startswith("delta") or k.endswith("substitution") for k in m.kinds),
            "labels": sorted(m.kinds)}


@st.composite
def wide(draw):
    """More entries than fourteen bits can number."""
    return {"req": draw(st.booleans()), "extra": draw(st.integers(1, 400)), "value": draw(st.sampled_from(["", "v"])),
            "at": draw(st.lists(st.one_of(st.sampled_from([63, 64, 16446, 16447, 16448]), st.integers(0, 17000)), min_size=1, max_size=20))}


def run_wide(c, env):
    total = 16447 + c["extra"]
    at = [i % total for i in c["at"] + [total - 1]]
    frames, k = [], 0
    while k < total:
        k1 = min(total, k + 250)
        data = b"".join((ref.enc_int(0, 4, 0x20) + ref.enc_string("f%d" % i) if i < 1000 else ref.enc_int(len(registered(c["req"])) + i % 1000 + 1, 4, 0x20)) +
                        ref.enc_string(c["value"] + ("" if c["value"] == "" else "%d" % (i // 1000))) for i in range(k, k1))
        frames.append(ref.frame(bytes([k1 - k]) + data))
        k = k1
    frames.append(ref.frame(bytes([len(at)]) + b"".join(indexed(i) for i in at)))
    r = env.worker("jy").call("codec_decode", timeout=600, name="headerdiff", is_request=c["req"], params=["buffer=1000000"],
                              frames=[f.decode("latin-1") for f in frames])
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    for i, o in enumerate(r["ok"]):
        if "dec_exc" in o:
            raise Violation("decode-exception", "block %d: %r" % (i, o["dec_exc"]))
    want = {}
    for i in at:
        want.setdefault("f%d" % (i % 1000), []).append(c["value"] + ("" if c["value"] == "" else "%d" % (i // 1000)))
    want = {k: "\0".join(v) for k, v in want.items()}
    if c06.norm(want) != c06.norm(r["ok"][-1]["dec"]):
        raise Violation("decode", "indices %r give %r, expected %r" % (at, r["ok"][-1]["dec"], want))
    return {"nontrivial": True, "labels": ["wide"]}


def registered(req):
    return ref.REQ if req else ref.RES


TARGETS = [Target("emit", c06.case, run_emit, 1500), Target("tight", c06.tight, run_emit, 1200), Target("accept", stream, run_accept, 3000), Target("wide", wide, run_wide, 8)]
