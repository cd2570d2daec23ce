"""H02: streamifiers partition the messages, against a reference grouping."""
from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen

RULE = ("lists of request/response pairs whose hosts come from small pools with ports, case and blank variants, either side now and then naming other hosts in its fields; "
        "non-trivial = at least two messages that share a group, and at least two groups (two messages for the single-stream streamifier)")
ASSUMPTIONS = ["the registered domain of a host is what the publicsuffix library (a dependency) reports for the host without its port"]

domain = st.sampled_from(["example.com", "a.example.com", "b.a.example.com", "example.co.uk", "x.example.co.uk",
                          "co.uk", "foo.github.io", "localhost", "10.0.0.1", "x.city.kobe.jp", "xx.test", "com", "other.com", "www.other.com"])
label = st.text(alphabet="abz0-", min_size=1, max_size=4)
anydomain = st.one_of(domain, domain, st.lists(label, min_size=1, max_size=4).map(".".join))


@st.composite
def hosts(draw):
    big = draw(st.integers(0, 7)) == 0
    pool = draw(st.lists(anydomain, min_size=8 if big else 1, max_size=16 if big else 4, unique=True))
    out = []
    for _ in range(draw(st.integers(10, 40) if big else st.integers(0, 8))):
        h = draw(st.sampled_from(pool))
        v = draw(st.integers(0, 9))
        if v == 0:
            h = h.upper()
        elif v == 1:
            h = h + draw(st.sampled_from([":80", ":8080", ":1"]))
        elif v == 2:
            h = " " + h + " "
        elif v == 3:
            h = h.title()
        out.append(h)
    return out


def strategy():
    extra = st.one_of(st.just({}), st.just({}), st.just({}),
                      st.dictionaries(st.sampled_from([":host", "host", "location", "referer"]), anydomain, max_size=2))
    return hosts().flatmap(lambda hs: st.tuples(
        st.just(hs), st.lists(gen.token(max_size=6), min_size=1, max_size=3, unique=True),
        st.lists(st.tuples(extra, extra).map(list), min_size=len(hs), max_size=len(hs)))).map(list)


def messages(hs, extra):
    # "i" makes every message distinguishable.
    return [[dict(q, **{":host": h, "i": "q%d" % i}), dict({":status": "200", "i": "s%d" % i}, **s)]
            for i, (h, (q, s)) in enumerate(zip(hs, extra))]


def make_run(kind):
    def run(case, env):
        hs, procs, extra = case
        msgs = messages(hs, extra)
        w = env.worker("py3")
        if kind == "all_one":
            keys = ["all"] * len(hs)
            given = hs
            order = ["all"]
        elif kind == "host":
            keys = [h.strip().lower() for h in hs]
            given = keys
            order = list(dict.fromkeys(keys))
        else:
            keys = w.call("suffixes", hosts=[h.split(":")[0] for h in hs])["ok"]
            given = hs
            order = list(dict.fromkeys(keys))
        r = w.call("streamify", kind=kind, messages=msgs, procs=procs)
        if "exc" in r:
            raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
        streams = r["ok"]
        want = []
        for k in order:
            for t, j in (("req", 0), ("res", 1)):
                want.append((k, t, [[msgs[i][j], given[i]] for i in range(len(hs)) if keys[i] == k]))
        got = [(s["name"], s["type"], [[m[0], m[1]] for m in s["messages"]]) for s in streams]
        if got != want:
            raise Violation("partition", "expected %r, got %r" % (want, got))
        for s in streams:
            if s["procs"] != procs:
                raise Violation("procs", "stream lists codecs %r instead of %r" % (s["procs"], procs))
        groups = [keys.count(k) for k in order]
        nt = (len(hs) >= 2) if kind == "all_one" else (len(groups) > 1 and max(groups, default=0) > 1)
        labels = ["groups=%d" % min(len(groups), 4)]
        if any(h != h.strip().lower() for h in hs):
            labels.append("unnormalised-host")
        return {"nontrivial": nt, "labels": labels}
    return run


TARGETS = [Target(k, strategy, make_run(k), q) for k, q in
           (("all_one", 600), ("host", 2500), ("public_suffix", 2500))]
