"""C09: delta codec round trip over histories."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen
from .codec import drive, check_items

RULE = ("histories of 1-64 messages over 1-4 hosts with shared names and values, both directions, entry limits 0-60 or default and byte limits 0-3000 or default, "
        "bulk messages of 250-520 fields, long histories whose entry numbers wrap, histories over more hosts than there are header groups; "
        "non-trivial = three or more messages with a field repeated after it was dropped or by another host")
ASSUMPTIONS = ["a frame stays below 64 KB (ops are not split over frames)", "repeated equal values of one field count once, as in the tool's own comparison", "blanks around a value do not count", "a message has at most one cookie field (RFC 6265)"]

HOSTS = ["www.example.com", "static.example.com", "example.org", "a.b.c.d", "h", "127.0.0.1", "x.co.uk:8080"]
OPNAMES = ["eref", "toggl", "trang", "clone", "kvsto"]


@st.composite
def history(draw, bulk=True, max_msgs=16):
    is_request = draw(st.booleans())
    vals = st.one_of(gen.latin_value(8), gen.raw_value(), st.sampled_from(["a", "b", "c", "d", ""]), gen.long_value(30, 200))
    vals = gen.huge(draw, vals, 12000)
    names = st.one_of(gen.name(), gen.name(), st.sampled_from(["a", "b", "c", ":path", "referer", "cookie", "set-cookie"] + OPNAMES))
    with_pseudo = draw(st.integers(0, 2)) > 0
    if draw(st.integers(0, 19)) == 0:
        max_msgs *= 4
    msgs = draw(gen.history(is_request, max_msgs=max_msgs, max_headers=6, values=gen.padded(vals), names=names, pool=6, with_pseudo=False))
    for m in msgs:
        for h in m:
            if h[0] == "cookie":
                h[1] = h[1].replace("\0", "; ")
    if with_pseudo:
        for i, m in enumerate(msgs):
            ps = draw(gen.pseudo(is_request))
            own = set(k for k, _ in ps)
            msgs[i] = ps + [p for p in m if p[0] not in own]
    if bulk and draw(st.integers(0, 24)) == 0:
        n = draw(st.sampled_from([255, 256, 257, 300, 511, 512, 513]))
        alt = draw(st.booleans())
        extra = [["k%d" % i, "v"] for i in range(n)]
        # Stored by one message, then referenced by others.
        msgs = [extra] + msgs[:2] + [extra[::2] if alt else extra, msgs[0], extra]
    hosts = draw(st.lists(st.sampled_from(draw(st.lists(st.sampled_from(HOSTS), min_size=1, max_size=3))),
                          min_size=len(msgs), max_size=len(msgs)))
    return is_request, msgs, hosts


@st.composite
def limits(draw):
    p = {}
    if draw(st.integers(0, 2)):
        p["max_entries"] = draw(st.one_of(st.integers(0, 12), st.integers(0, 5), st.integers(0, 60)))
    if draw(st.integers(0, 2)) == 0:
        p["max_byte_size"] = draw(st.one_of(st.integers(0, 400), st.integers(0, 60), st.integers(0, 3000)))
    return p


@st.composite
def case(draw):
    req, msgs, hosts = draw(history())
    return {"req": req, "opt": draw(limits()), "msgs": msgs, "hosts": hosts}


@st.composite
def tight(draw, options=limits):
    """Messages picked from a few fields, and limits that let some of them stay."""
    msgs, limit, n = gen.tight(draw, ["a", "b", "c", "d", "cookie", ":path"], ["", "1", "2", "x" * 5, "x" * 20, "/"], lambda k, v: len(k) + len(v))
    o = draw(options())
    which = draw(st.integers(0, 2))
    o["max_entries"] = draw(st.integers(0, n + 1)) if which else 4096
    if which != 1:
        o["max_byte_size"] = limit
    else:
        o.pop("max_byte_size", None)
    hosts = draw(st.lists(st.sampled_from(HOSTS[:draw(st.integers(1, 3))]), min_size=len(msgs), max_size=len(msgs)))
    return {"req": draw(st.booleans()), "opt": o, "msgs": msgs, "hosts": hosts}


def params(o):
    return ["%s=%s" % kv for kv in sorted(o.items())]


def labels(c):
    seen, back, prev = set(), 0, {}
    for m, h in zip(c["msgs"], c["hosts"]):
        s = set(map(tuple, m))
        back += bool((s & seen) - prev.get(h, set()))
        prev[h] = s
        seen |= s
    return {"nontrivial": len(c["msgs"]) >= 3 and back > 0,
            "labels": sorted(c["opt"]) + (["hosts>1"] if len(set(c["hosts"])) > 1 else []) + (["bulk"] if any(len(m) > 200 for m in c["msgs"]) else []) +
            (["evicting"] if "max_entries" in c["opt"] and len(seen) > c["opt"]["max_entries"] else [])}


def run(c, env):
    items = drive(env, "jy", name="delta", is_request=c["req"], params=params(c["opt"]), msgs=c["msgs"], hosts=c["hosts"])
    check_items(c["msgs"], items, gen.normset)
    return labels(c)


@st.composite
def wrap_case(draw):
    """Enough fields per message that entry numbers wrap around 2**16."""
    n = draw(st.integers(150, 250))
    return {"req": draw(st.booleans()), "n": n, "rounds": 66500 // n + draw(st.integers(0, 40)),
            "change": draw(st.integers(1, 9)), "hosts": draw(st.integers(1, 3)), "entries": draw(st.sampled_from([None, 300, 120]))}


def wrap_history(c):
    msgs, hosts = [], []
    for r in range(c["rounds"]):
        msgs.append([["k%d" % i, "v%d" % (r // c["change"] if i % 50 == r % 50 else 0)] for i in range(c["n"])])
        hosts.append(HOSTS[r % c["hosts"] + 1])
    return msgs, hosts, {} if c["entries"] is None else {"max_entries": c["entries"]}


def run_wrap(c, env):
    msgs, hosts, o = wrap_history(c)
    items = drive(env, "jy", timeout=600, name="delta", is_request=c["req"], params=params(o), msgs=msgs, hosts=hosts)
    check_items(msgs, items, gen.normset)
    return {"nontrivial": True, "labels": ["wrapped"], "sample": c}


@st.composite
def many_case(draw, options=limits):
    """More hosts than there are header groups."""
    return {"req": draw(st.booleans()), "opt": draw(options()), "n": draw(st.one_of(st.integers(240, 300), st.integers(2, 600))),
            "rounds": draw(st.integers(1, 700)), "step": draw(st.integers(1, 9)), "fields": draw(st.integers(1, 4)),
            "pool": draw(st.sampled_from([1, 2, 5, 40])), "back": draw(st.integers(0, 20))}


def many_history(c):
    msgs, hosts = [], []
    for r in range(c["rounds"]):
        msgs.append([["k%d" % ((r + i * 3) % 7), "v%d" % ((r * (i + 1) + i) % c["pool"])] for i in range(c["fields"])])
        hosts.append("h%d" % ((r * c["step"] if r % 3 or not c["back"] else r // c["back"]) % c["n"]))
    return msgs, hosts


def run_many(c, env, name="delta"):
    msgs, hosts = many_history(c)
    items = drive(env, "jy", timeout=600, name=name, is_request=c["req"], params=params(c["opt"]), msgs=msgs, hosts=hosts)
    check_items(msgs, items, gen.normset)
    return {"nontrivial": len(set(hosts)) < len(hosts), "labels": ["hosts>254"] if len(set(hosts)) > 254 else [], "sample": c}


TARGETS = [Target("history", case, run, 1400), Target("tight", tight, run, 900), Target("hosts", many_case, run_many, 60), Target("wrap", wrap_case, run_wrap, 8, 60)]
