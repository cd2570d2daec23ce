"""C18: decoders end on damaged frames, and only the instance that read them is affected."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen
from . import c04, c06, c09, c11, c15

RULE = ("histories of 1-8 messages of each codec that decompresses, its frames then cut, altered in single bits and bytes, lengthened, repeated, reordered, spliced or replaced by "
        "arbitrary bytes; non-trivial = an altered frame that differs from every frame sent and is not empty")
ASSUMPTIONS = ["what a decoder makes of a damaged frame is not judged, only that it ends: with a header set or an exception",
               "hyper_hpack's decoder is the installed hpack library's"]

JY = ["http2", "headerdiff", "delta", "delta2", "simple"]
PY3 = ["http1", "hyper_hpack"]


def history(draw, name):
    hosts, params, req = None, [], draw(st.booleans())
    if name == "http2":
        c = draw(c04.case())
        req, params, msgs = c["req"], c04.params(c), c["msgs"]
    elif name == "headerdiff":
        req, msgs = draw(c06.history())
        params = c06.params(draw(c06.options()))
    elif name in ("delta", "delta2"):
        req, msgs, hosts = draw(c09.history())
        params = c09.params(draw(c11.options() if name == "delta2" else c09.limits()))
    elif name == "simple":
        c = draw(c15.case())
        req, params, msgs = c["req"], c["opt"], c["msgs"]
    else:
        msgs = draw(gen.history(req, max_msgs=8, values=st.one_of(gen.latin_value(), gen.long_value(100, 300)), with_pseudo=name == "http1" or draw(st.booleans())))
    return {"name": name, "is_request": req, "params": params, "msgs": msgs[:8], "hosts": hosts and hosts[:8]}


byte = st.one_of(st.integers(0, 255), st.sampled_from([0, 0x7f, 0x80, 0xff, 0x3a, 0x0a, 0x0d, 0x20]))
KINDS = ["cut", "cut", "bit", "bit", "bit", "set", "set", "insert", "drop", "run", "tail", "double", "swap", "repeat", "lose", "splice", "junk", "range", "range"]
edit = st.tuples(st.integers(0, 9), st.sampled_from(KINDS), st.one_of(st.integers(0, 24), st.integers(0, 400)), byte, st.integers(1, 40)).map(list)


def case(names):
    @st.composite
    def build(draw):
        c = history(draw, draw(st.sampled_from(names)))
        c["edits"] = draw(st.lists(edit, min_size=1, max_size=5))
        c["junk"] = "".join(map(chr, draw(st.lists(byte, max_size=40))))
        return c
    return build


def damage(frames, edits, junk):
    out = list(frames)
    for which, kind, at, b, n in edits:
        if not out:
            out = [junk]
        i = which % len(out)
        f = out[i]
        p = at % (len(f) + 1)
        if kind == "cut":
            f = f[:p]
        elif kind in ("bit", "set", "drop") and p < len(f):
            f = f[:p] + (chr(ord(f[p]) ^ 1 << b % 8) if kind == "bit" else chr(b) if kind == "set" else "") + f[p + 1:]
        elif kind == "insert":
            f = f[:p] + chr(b) * (n % 4 + 1) + f[p:]
        elif kind == "run":
            f = f[:p] + chr(b) * n + f[p + n:]
        elif kind == "tail":
            f = f[:p] + chr(b) * n
        elif kind == "double":
            f = f[:p] * 2 + f[p:]
        elif kind == "swap":
            out[i], out[-1 - i] = out[-1 - i], out[i]
            continue
        elif kind == "repeat":
            out.insert(i, f)
            continue
        elif kind == "lose":
            del out[i]
            continue
        elif kind == "splice":
            f = f[:p] + out[(i + n) % len(out)][p:]
        elif kind == "range":
            # (delta2: one operation on a range of indices up to a huge one,
            # in place of the operations)
            body = chr((2 + at % 6) << 4) + "\xff" * (n % 8) + chr(b) + f[9:9 + at % 4]
            f = chr(0) + chr(len(body) + 8) + f[2:9] + body
        elif kind == "junk":
            f = junk
        out[i] = f
    return out


def call(env, worker, op, **args):
    r = env.worker(worker).call(op, timeout=30, **args)
    if "exc" in r:
        raise Violation("setup-exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    return r["ok"]


def runner(worker):
    def run(c, env):
        args = {k: c[k] for k in ("name", "is_request", "params", "msgs", "hosts")}
        before = call(env, worker, "codec_plain", **args)
        bad = damage(before["wires"], c["edits"], c["junk"])
        r = call(env, worker, "codec_feed", name=c["name"], is_request=c["is_request"], params=c["params"], frames=bad, as_bytes=before["bytes"])
        if len(r) != len(bad):
            raise Violation("unanswered", "%d frames, %d results" % (len(bad), len(r)))
        for i, x in enumerate(r):
            if x not in ("headers", "error"):
                raise Violation("neither", "frame %d %r gives neither a header set nor an exception but %s" % (i, bad[i], x))
        after = call(env, worker, "codec_plain", **args)
        if before != after:
            raise Violation("contaminated", "the same history with new instances, after others were given damaged frames: %s, before: %s" % (str(after)[:600], str(before)[:600]))
        new = [f for f in bad if f and f not in before["wires"]]
        return {"nontrivial": bool(new), "labels": [c["name"]] + sorted(set(r)) + sorted(set(e[1] for e in c["edits"]))}
    return run


TARGETS = [Target("jython", case(JY), runner("jy"), 1400), Target("python3", case(PY3), runner("py3"), 800)]
