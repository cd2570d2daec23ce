"""C11: delta2 codec round trip over histories and options."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen
from . import c09
from .codec import drive, check_items

RULE = ("histories of 1-16 messages over 1-4 hosts, both directions, entry limits 0-12 or default, byte limits 0-400 or default, every combination of the boolean options "
        "(small_index, varint_encoding, hg_adjust, implicit_hg_add, refcnt_vals, only_etoggles, idx_from_end), bulk messages, long histories whose sequence numbers wrap, histories over more hosts than there are header groups; "
        "non-trivial = three or more messages with a field repeated after it was dropped or by another host")
ASSUMPTIONS = c09.ASSUMPTIONS

FLAGS = {"small_index": True, "varint_encoding": True, "hg_adjust": False, "implicit_hg_add": False,
         "refcnt_vals": False, "only_etoggles": False, "idx_from_end": True}
TRUE, FALSE = ["1", "true", "True", "t"], ["0", "false"]


@st.composite
def options(draw):
    p = draw(c09.limits())
    for f in sorted(FLAGS):
        k = draw(st.integers(0, 3))
        if k < 2:
            p[f] = draw(st.sampled_from(TRUE if k else FALSE))
    return p


@st.composite
def case(draw):
    req, msgs, hosts = draw(c09.history())
    return {"req": req, "opt": draw(options()), "msgs": msgs, "hosts": hosts}


def flag(o, f):
    return FLAGS[f] if f not in o else o[f] in TRUE


def labels(c):
    r = c09.labels(c)
    r["labels"] = [x for x in r["labels"] if x not in FLAGS] + [f for f in FLAGS if flag(c["opt"], f) != FLAGS[f]]
    return r


def run(c, env):
    items = drive(env, "jy", name="delta2", is_request=c["req"], params=c09.params(c["opt"]), msgs=c["msgs"], hosts=c["hosts"])
    check_items(c["msgs"], items, gen.normset)
    return labels(c)


@st.composite
def wrap_case(draw):
    """Steadily changing values: the 190 (or fewer) sequence numbers wrap several times."""
    o = draw(options())
    if "max_entries" in o:
        o["max_entries"] = draw(st.sampled_from([1, 3, 20, 100, 189, 190, 191, 5000]))
    if draw(st.booleans()):
        o["max_byte_size"] = draw(st.sampled_from([300, 2000, 100000]))
    if draw(st.integers(0, 2)):
        o.pop("small_index", None)
    n = draw(st.integers(1, 40))
    return {"req": draw(st.booleans()), "opt": o, "n": n, "rounds": draw(st.integers(20, 60)),
            "moving": draw(st.integers(1, n)), "pool": draw(st.integers(2, 400)), "hosts": draw(st.integers(1, 3))}


def wrap_history(c):
    msgs, hosts = [], []
    for r in range(c["rounds"]):
        msgs.append([["k%d" % i, "v%d" % ((r * 7 + i * 3) % c["pool"] if (i + r) % c["n"] < c["moving"] else i)] for i in range(c["n"])])
        hosts.append(c09.HOSTS[(r // 2) % c["hosts"] + 1])
    return msgs, hosts


def run_wrap(c, env):
    msgs, hosts = wrap_history(c)
    items = drive(env, "jy", timeout=600, name="delta2", is_request=c["req"], params=c09.params(c["opt"]), msgs=msgs, hosts=hosts)
    check_items(msgs, items, gen.normset)
    return {"nontrivial": True, "labels": ["small" if flag(c["opt"], "small_index") else "large"], "sample": c}


@st.composite
def wrap16_case(draw):
    """Two-byte sequence numbers, enough new entries for them to wrap."""
    o = draw(options())
    o["small_index"] = "0"
    for k, v in (("max_entries", [190, 300, 1000]), ("max_byte_size", [4000, 20000])):
        o.pop(k, None)
        if draw(st.booleans()):
            o[k] = draw(st.sampled_from(v))
    n = draw(st.integers(150, 250))
    return {"req": draw(st.booleans()), "opt": o, "n": n, "rounds": 66000 // n + draw(st.integers(0, 20)), "hosts": draw(st.integers(1, 3)), "keep": draw(st.integers(0, 60))}


def wrap16_history(c):
    msgs, hosts = [], []
    for r in range(c["rounds"]):
        msgs.append([["k%d" % i, "v%d" % (0 if i < c["keep"] and r % 7 else r)] for i in range(c["n"])])
        hosts.append(c09.HOSTS[(r // 2) % c["hosts"] + 1])
    return msgs, hosts


def run_wrap16(c, env):
    msgs, hosts = wrap16_history(c)
    items = drive(env, "jy", timeout=600, name="delta2", is_request=c["req"], params=c09.params(c["opt"]), msgs=msgs, hosts=hosts)
    check_items(msgs, items, gen.normset)
    return {"nontrivial": True, "labels": ["wrap16"], "sample": c}


TARGETS = [Target("history", case, run, 1400), Target("tight", lambda: c09.tight(options), run, 900), Target("wrap", wrap_case, run_wrap, 100), Target("wrap16", wrap16_case, run_wrap16, 0, 16),
           Target("hosts", lambda: c09.many_case(options), lambda c, env: c09.run_many(c, env, "delta2"), 60)]
