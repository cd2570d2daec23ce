"""C17: codec instances are deterministic and independent of each other."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen
from . import c04, c06, c09, c11, c13, c15

RULE = ("two to four instances of one codec, or of codecs of different kinds, each with its own direction, options and history of 1-8 messages, "
        "advanced in a generated order in one process, their caller changing the dictionaries he gave and got afterwards; every instance is also driven alone, with and without decompressing through itself; the Python 3 codecs under "
        "another hash seed as well; some with code imported afresh for each run; non-trivial = two instances whose messages alternate at least once")
ASSUMPTIONS = ["the fork codec is left to C16 (its process is somebody else's program)",
               "histories and options within the domains of the codecs' own properties (C01-C15)"]

PY3 = ["http1", "http1_gzip", "http1_huffman", "spdy3", "hyper_hpack"]
JY = ["http2", "headerdiff", "delta", "delta2", "simple", "bohe", "delta_bohe", "delta2_bohe"]
COMPRESS_ONLY = ("bohe", "delta_bohe", "delta2_bohe", "http1_gzip", "http1_huffman", "spdy3")


@st.composite
def instance(draw, name):
    """Parameters and messages for one instance."""
    req = draw(st.booleans())
    hosts = None
    if name in PY3:
        params = ["dict"] if name == "spdy3" and draw(st.booleans()) else []
        msgs = draw(gen.history(req, max_msgs=8, values=st.one_of(gen.raw_value(), gen.long_value(100, 300))))
    elif name == "http2":
        c = draw(c04.case())
        req, params, msgs = c["req"], c04.params(c), c["msgs"]
    elif name == "headerdiff":
        req, msgs = draw(c06.history())
        params = c06.params(draw(c06.options()))
    elif name in ("delta", "delta2"):
        req, msgs, hosts = draw(c09.history())
        params = c09.params(draw(c11.options() if name == "delta2" else c09.limits()))
    elif name == "simple":
        c = draw(c15.case())
        req, params, msgs = c["req"], c["opt"], c["msgs"]
    else:
        c = draw(c13.case(bulk=False))
        req, params, hosts = c["req"], [], c["hosts"]
        msgs = [[[i[1], i[2]] for i in m] for m in c["msgs"]]
    return {"name": name, "is_request": req, "params": params, "msgs": msgs[:8], "hosts": hosts and hosts[:8],
            "spoil": draw(st.booleans()), "shared": name not in COMPRESS_ONLY and draw(st.booleans())}


def case(names, most=3):
    @st.composite
    def build(draw):
        main = draw(st.sampled_from(names))
        n = draw(st.integers(2, 1 + most))
        kinds = [main, main] + [draw(st.sampled_from([main] + names)) for _ in range(n - 2)]
        inst = [draw(instance(k)) for k in kinds]
        if draw(st.integers(0, 2)) == 0:
            # the same history twice, perhaps with other options or in the other direction
            inst[1] = dict(inst[1], msgs=inst[0]["msgs"], hosts=inst[0]["hosts"])
            if main not in ("bohe", "delta_bohe", "delta2_bohe"):
                inst[1]["is_request"] = inst[0]["is_request"]
            else:
                inst[1] = dict(inst[0])
            if main in ("simple", "headerdiff"):
                inst[1] = dict(inst[0])
        left = [i for i, s in enumerate(inst) for _ in s["msgs"]]
        return {"inst": inst, "order": draw(st.permutations(left))}
    return build


def drive(env, worker, inst, order, op="codec_mix"):
    r = env.worker(worker).call(op, timeout=120, specs=inst, order=order)
    if "exc" in r:
        raise Violation("setup-exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    return r["ok"]


def same(what, spec, a, b, decoded=True):
    for i, (x, y) in enumerate(zip(a, b)):
        if x["wire"] != y["wire"]:
            raise Violation(what, "%s, message %d: %r, alone %r" % (spec["name"], i, x["wire"], y["wire"]))
        if decoded and x.get("dec") != y.get("dec"):
            raise Violation(what + "-read", "%s, message %d: read as %r, alone %r" % (spec["name"], i, x.get("dec"), y.get("dec")))


def run_on(worker, other=None, op="codec_mix"):
    def run(c, env):
        drive = lambda *a: globals()["drive"](*a, op=op)
        inst, order = c["inst"], c["order"]
        mixed = drive(env, worker, inst, order)
        for s, got in zip(inst, mixed):
            for i, item in enumerate(got):
                for k in ("enc_exc", "dec_exc"):
                    if k in item:
                        alone = drive(env, worker, [dict(s, spoil=False)], [0] * len(s["msgs"]))[0]
                        if k in alone[min(i, len(alone) - 1)]:
                            # not a matter of isolation; C01-C15 judge it
                            return {"nontrivial": False, "labels": ["failing"]}
                        raise Violation("interference", "%s, message %d fails beside others only: %r" % (s["name"], i, item[k]))
                if item["mutated"]:
                    raise Violation("mutated", "%s changed the header set of message %d it was given" % (s["name"], i))
            s = dict(s, spoil=False)
            alone = drive(env, worker, [s], [0] * len(s["msgs"]))[0]
            same("interference", s, got, alone)
            if s["name"] not in COMPRESS_ONLY:
                flip = drive(env, worker, [dict(s, shared=not s["shared"])], [0] * len(s["msgs"]))[0]
                same("two-ends", s, got, flip)
            if other:
                same("hash-order", s, got, drive(env, other, [s], [0] * len(s["msgs"]))[0])
        turns = sum(a != b for a, b in zip(order, order[1:]))
        return {"nontrivial": turns >= 2, "labels": sorted({s["name"] for s in inst}) + ["mixed" if len({s["name"] for s in inst}) > 1 else "same-kind"]}
    return run


TARGETS = [Target("python3", case(PY3), run_on("py3", "py3:4242"), 700), Target("python2", case(JY), run_on("jy"), 400),
           Target("fresh3", case(PY3), run_on("py3", op="codec_pristine"), 150), Target("fresh2", case(JY, 1), run_on("jy", op="codec_pristine"), 60)]
