"""C10: delta frames against an independent peer."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen
from ..ref import delta as ref
from . import c09, c12
from .codec import drive, check_items

RULE = ("(a) C09's histories and limits, followed by a message of everything sent before so that all of the encoder's storage is referenced, read by an independent peer "
        "that keeps its own storage and header groups; (b) generated conforming frames (all opcodes, ranges, up to 256 operations under one opcode, several groups) given to the "
        "codec's decoder, followed by frames that turn on every entry the model holds; (c) long histories whose entry numbers wrap, histories over more hosts than there are header groups; "
        "non-trivial = (a) as C09, (b) an eviction or two groups or a range")
ASSUMPTIONS = c09.ASSUMPTIONS + [
    "an entry larger than the whole storage empties it and is stored all the same (what the codec's own two ends agree on)",
    "the Huffman code words are learnt from the coder (judged by P02)"]


def peer(env, req, o):
    return ref.Peer(c12.book(env, "delta", req), o.get("max_byte_size", 16 * 1024), o.get("max_entries", 4096))


def run_emit(c, env):
    msgs, hosts = c12.with_probe(c)
    items = drive(env, "jy", name="delta", is_request=c["req"], params=c09.params(c["opt"]), msgs=msgs, hosts=hosts, decode=False)
    check_items(msgs, items, decode=False)
    p = peer(env, c["req"], c["opt"])
    c12.judge(msgs, items, p)
    r = c09.labels(c)
    r["labels"] += sorted(p.kinds) + (["evicted"] if p.evicted else []) + (["overfull"] if p.over else [])
    return r


def run_wrap(c, env):
    msgs, hosts, o = c09.wrap_history(c)
    items = drive(env, "jy", timeout=600, name="delta", is_request=c["req"], params=c09.params(o), msgs=msgs, hosts=hosts, decode=False)
    check_items(msgs, items, decode=False)
    p = peer(env, c["req"], o)
    c12.judge(msgs, items, p)
    return {"nontrivial": True, "labels": sorted(p.kinds) + (["evicted"] if p.evicted else []), "sample": c}


def run_many(c, env):
    msgs, hosts = c09.many_history(c)
    items = drive(env, "jy", timeout=600, name="delta", is_request=c["req"], params=c09.params(c["opt"]), msgs=msgs, hosts=hosts, decode=False)
    check_items(msgs, items, decode=False)
    p = peer(env, c["req"], c["opt"])
    c12.judge(msgs, items, p)
    return {"nontrivial": len(set(hosts)) < len(hosts), "labels": (["hosts>254"] if len(set(hosts)) > 254 else []) + (["evicted"] if p.evicted else []), "sample": c}


n = st.integers(0, 400)
oper = st.one_of(
    st.tuples(st.just("toggl"), n).map(list),
    st.tuples(st.just("toggl"), n).map(list),
    st.tuples(st.just("trang"), n, n).map(list),
    st.tuples(st.just("clone"), n, c12.val).map(list),
    st.tuples(st.just("clone"), n, c12.val).map(list),
    st.tuples(st.just("kvsto"), c12.nm, c12.val).map(list),
    st.tuples(st.just("eref"), c12.nm, c12.val).map(list))


@st.composite
def stream(draw):
    frames = draw(st.lists(st.tuples(st.sampled_from([0, 1, 1, 2, 255]), st.lists(oper, max_size=8)).map(list), min_size=1, max_size=8))
    many = draw(st.sampled_from([0] * 12 + [40, 256, 300]))
    if many:
        frames = [[1, [["kvsto", "k%d" % i, "v"] for i in range(many)]]] + frames
    return {"req": draw(st.booleans()), "opt": draw(c09.limits()), "frames": frames}


def concrete(p, ops):
    """The ops with numbers that exist; an entry is toggled once per frame."""
    out, used = [], set()
    live, keys = p.live(), sorted(p.by_key)
    for o in ops:
        if o[0] == "toggl":
            i = live[o[1] % len(live)]
            if i in used:
                continue
            used.add(i)
            out.append({"op": "toggl", "index": i})
        elif o[0] == "trang":
            a = o[1] % len(live)
            b = a
            while b + 1 < len(live) and b - a < o[2] % 6 and live[b + 1] == live[b] + 1:
                b += 1
            ids = set(live[a:b + 1])
            if ids & used:
                continue
            used |= ids
            out.append({"op": "trang", "index": live[b], "index_start": live[a]})
        elif o[0] == "clone":
            out.append({"op": "clone", "key_idx": keys[o[1] % len(keys)], "val": o[2]})
        else:
            out.append({"op": o[0], "key": o[1], "val": o[2]})
    return out


def run_accept(c, env):
    p = peer(env, c["req"], c["opt"])
    frames, expect = [], []
    for group, ops in c["frames"]:
        frames.append(p.write(group, concrete(p, ops)))
        expect.append(p.frame(frames[-1])[1])
    evicted = p.evicted
    for group in [200] + sorted(p.groups):
        p.groups.setdefault(group, set())
        on = p.groups[group]
        ops = [{"op": "toggl", "index": i} for i in p.live() if i not in on] if group == 200 else []
        frames.append(p.write(group, ops))
        expect.append(p.frame(frames[-1])[1])
    r = env.worker("jy").call("codec_decode", name="delta", is_request=c["req"], params=c09.params(c["opt"]),
                              frames=[f.decode("latin-1") for f in frames])
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    for i, e in enumerate(expect):
        o = r["ok"][i]
        if "dec_exc" in o:
            raise Violation("decode-exception", "frame %d of %d: %r" % (i, len(c["frames"]), o["dec_exc"]))
        if gen.norm(o["dec"]) != c12.multi(e):
            raise Violation("decode", "frame %d of %d: %r, expected %r" % (i, len(c["frames"]), o["dec"], e))
    kinds = set(o[0] for _, ops in c["frames"] for o in ops)
    return {"nontrivial": bool(evicted or len(set(g for g, _ in c["frames"])) > 1 or "trang" in kinds),
            "labels": sorted(kinds) + (["evicted"] if evicted else []) + (["overfull"] if p.over else [])}


TARGETS = [Target("emit", c09.case, run_emit, 1000), Target("tight", c09.tight, run_emit, 700), Target("accept", stream, run_accept, 2400), Target("wrap", c09.wrap_case, run_wrap, 6, 60),
           Target("hosts", c09.many_case, run_many, 60)]
