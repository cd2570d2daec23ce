"""C12: delta2 frames and storage against an independent peer."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen
from ..ref import delta2 as ref
from ..ref.bits import Book
from . import c09, c11
from .codec import drive, check_items, wires

RULE = ("(a) C11's histories and options, followed by a message of everything sent before so that all of the encoder's storage is referenced, read by an independent peer "
        "that keeps its own bounded storage; (b) generated conforming frames (all opcodes, ranges, several groups) given to the codec's decoder, followed by a frame that "
        "turns on every entry the model holds, so that the whole storage is compared, histories over more hosts than there are header groups; non-trivial = (a) as C11, (b) an eviction or two groups or a range")
ASSUMPTIONS = c09.ASSUMPTIONS + [
    "storage size counts every string held by stored entries once; entries made by clone share the key, copies made by hg_adjust share key and (refcnt_vals) value",
    "the Huffman code words are learnt from the coder (judged by P02)"]

_books = {}


def book(env, name, is_request):
    if (name, is_request) not in _books:
        r = env.worker("jy").call("delta_book", name=name, is_request=is_request)
        if "exc" in r:
            raise Violation("book-exception", "%r" % r)
        _books[name, is_request] = Book(r["ok"])
    b = _books[name, is_request]
    if b.problem():
        raise Violation("book", b.problem())
    return b


def peer(env, req, o):
    f = lambda n: c11.flag(o, n)
    return ref.Peer(book(env, "delta2", req), max_bytes=o.get("max_byte_size", 4096), max_entries=o.get("max_entries", 1024),
                    small=f("small_index"), varint=f("varint_encoding"), hg_adjust=f("hg_adjust"), implicit=f("implicit_hg_add"),
                    refcnt=f("refcnt_vals"), from_end=f("idx_from_end"))


def everything(msgs):
    """One message of every field ever sent."""
    m = {}
    for msg in msgs:
        for k, v in msg:
            have = m.setdefault(k, [])
            for x in v.split(";" if k == "cookie" else "\0"):
                if x.strip(" ") not in have:
                    have.append(x.strip(" "))
    return gen.capped([[k, (";" if k == "cookie" else "\0").join(v)] for k, v in m.items()], 18000)


def judge(msgs, items, p):
    groups = set()
    for i, w in enumerate(wires(items)):
        try:
            g, got = p.frame(w)
        except ref.WireError as e:
            raise Violation("wire", "message %d: %s (frame %r)" % (i, e, w))
        groups.add(g)
        if gen.normset(got) != gen.normset(msgs[i]):
            raise Violation("decoded", "message %d: the reference peer has %r, expected %r" % (i, got, msgs[i]))
        if len(set(got)) != len(got):
            raise Violation("repeated", "message %d: a field is emitted twice: %r" % (i, got))
    return groups


def with_probe(c):
    msgs = c["msgs"] + [everything(c["msgs"])]
    return msgs, c["hosts"] + [c["hosts"][-1]]


def run_emit(c, env):
    msgs, hosts = with_probe(c)
    items = drive(env, "jy", name="delta2", is_request=c["req"], params=c09.params(c["opt"]), msgs=msgs, hosts=hosts, decode=False)
    check_items(msgs, items, decode=False)
    p = peer(env, c["req"], c["opt"])
    judge(msgs, items, p)
    r = c11.labels(c)
    r["labels"] += sorted(p.kinds) + (["evicted"] if p.evicted else []) + (["refused"] if p.refused else [])
    return r


def run_wrap(c, env):
    msgs, hosts = c11.wrap_history(c)
    items = drive(env, "jy", timeout=600, name="delta2", is_request=c["req"], params=c09.params(c["opt"]), msgs=msgs, hosts=hosts, decode=False)
    check_items(msgs, items, decode=False)
    p = peer(env, c["req"], c["opt"])
    judge(msgs, items, p)
    return {"nontrivial": p.evicted > 0, "labels": sorted(p.kinds) + (["evicted"] if p.evicted else []), "sample": c}


def run_many(c, env):
    msgs, hosts = c09.many_history(c)
    items = drive(env, "jy", timeout=600, name="delta2", is_request=c["req"], params=c09.params(c["opt"]), msgs=msgs, hosts=hosts, decode=False)
    check_items(msgs, items, decode=False)
    p = peer(env, c["req"], c["opt"])
    judge(msgs, items, p)
    return {"nontrivial": len(set(hosts)) < len(hosts), "labels": (["hosts>254"] if len(set(hosts)) > 254 else []) + (["evicted"] if p.evicted else []), "sample": c}


n = st.integers(0, 400)
val = st.one_of(st.text(alphabet="abc01=/", max_size=6), gen.latin_value(10), st.sampled_from(["", "v" * 60, "1", "http"]))
nm = st.one_of(st.sampled_from(["x", "y", "x-y", "cookie", ":path", "via", "n" * 70]), gen.token())
oper = st.one_of(
    st.tuples(st.sampled_from(["stoggl", "stoggl", "etoggl"]), n).map(list),
    st.tuples(st.sampled_from(["strang", "etrang"]), n, n).map(list),
    st.tuples(st.sampled_from(["sclone", "sclone", "eclone"]), n, val).map(list),
    st.tuples(st.sampled_from(["skvsto", "skvsto", "ekvsto"]), nm, val).map(list))


@st.composite
def stream(draw):
    frames = draw(st.lists(st.tuples(st.sampled_from([0, 1, 1, 2, 255]), st.lists(oper, max_size=8)).map(list), min_size=1, max_size=8))
    many = draw(st.sampled_from([0] * 12 + [40, 200, 300]))
    if many:
        frames = [[1, [["skvsto", "k%d" % i, "v"] for i in range(many)]]] + frames
    return {"req": draw(st.booleans()), "opt": draw(c11.options()), "frames": frames}


def concrete(p, group, ops):
    """The ops with indices that exist, in wire form. Toggling the same entry
    twice in a frame would cancel out, which is conforming too."""
    out = []
    live = p.live()
    for o in ops:
        kind = o[0]
        if kind.endswith("toggl") or kind.endswith("clone"):
            op = {"op": kind, "index": p.to_wire(live[o[1] % len(live)])}
            if kind.endswith("clone"):
                op["val"] = o[2]
        elif kind.endswith("trang"):
            a, b = o[1] % len(live), o[2] % 5
            stop = a
            while stop + 1 < len(live) and stop - a < b and live[stop + 1] == live[stop] + 1:
                stop += 1
            op = {"op": kind, "index": p.to_wire(live[stop]), "index_start": p.to_wire(live[a])}
        else:
            op = {"op": kind, "key": o[1], "val": o[2]}
        out.append(op)
    return out


def run_accept(c, env):
    p = peer(env, c["req"], c["opt"])
    frames, expect = [], []
    for group, ops in c["frames"]:
        if len(ops) > 16:
            ops = ops[:p.max_seq]
        ops = concrete(p, group, ops)
        frames.append(p.write(group, ops))
        expect.append(p.frame(frames[-1])[1])
    evicted = p.evicted
    # Everything the model stores, turned on for one frame in a fresh group, then
    # what is on in each group used.
    for group, seqs in [(200, p.live())] + [(g, []) for g in sorted(p.groups)]:
        if p.groups.get(group) and seqs:
            continue
        frames.append(p.write(group, [{"op": "etoggl", "index": p.to_wire(s)} for s in seqs]))
        expect.append(p.frame(frames[-1])[1])
    r = env.worker("jy").call("codec_decode", name="delta2", is_request=c["req"], params=c09.params(c["opt"]),
                              frames=[f.decode("latin-1") for f in frames])
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    for i, e in enumerate(expect):
        o = r["ok"][i]
        if "dec_exc" in o:
            raise Violation("decode-exception", "frame %d of %d: %r" % (i, len(c["frames"]), o["dec_exc"]))
        if gen.norm(o["dec"]) != multi(e):
            raise Violation("decode", "frame %d of %d: %r, expected %r" % (i, len(c["frames"]), o["dec"], e))
    kinds = set(o[0] for _, ops in c["frames"] for o in ops)
    return {"nontrivial": bool(evicted or len(set(g for g, _ in c["frames"])) > 1 or any(k.endswith("trang") for k in kinds)),
            "labels": sorted(kinds) + (["evicted"] if evicted else []) + (["refused"] if p.refused else [])}


def multi(pairs):
    out = {}
    for k, v in pairs:
        out.setdefault(k, []).extend(x.strip(" ") for x in v.split(";" if k == "cookie" else "\0"))
    return {k: sorted(v) for k, v in out.items()}


TARGETS = [Target("emit", c11.case, run_emit, 1000), Target("tight", lambda: c09.tight(c11.options), run_emit, 700), Target("accept", stream, run_accept, 2400), Target("wrap", c11.wrap_case, run_wrap, 60),
           Target("hosts", lambda: c09.many_case(c11.options), run_many, 60)]
