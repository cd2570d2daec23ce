"""P06: the header storages against a list of entries."""
from hypothesis import strategies as st

from ..core import Target, Violation

RULE = ("programs of inserting, storing without reserving, sharing a held entry's name, popping (ring storages) and inserting and touching "
        "(delta's linked storage) under small byte, entry and number limits, every held entry and the last twelve names looked up after "
        "each step; non-trivial = an eviction by each kind of limit that is set, or a wrap of the sequence numbers with two entries or more held")
ASSUMPTIONS = ["numbers: the range is larger than the entry limit, so no number can be held twice",
               "delta's linked storage: a single entry fits the limits (the codec's own limits are far larger than a header)"]

KEYS = ["a", "b", "key", "long-key-name", ":path", "k2"]
VALS = ["", "1", "x", "yy", "value-0123456789", "v" * 30, "1a", "a1"]
KEY = st.sampled_from(KEYS)
VAL = st.one_of(st.sampled_from(VALS), st.sampled_from(VALS), st.text(st.sampled_from("abc"), max_size=6))


@st.composite
def ring_case(draw):
    copy = draw(st.sampled_from(["delta2", "delta2", "delta2_bohe"]))
    low = 0 if copy == "delta2" else 1
    items = draw(st.one_of(st.none(), st.integers(low, 6), st.integers(2, 5)))
    size = draw(st.one_of(st.none(), st.integers(low, 90), st.integers(30, 60)))
    offset = draw(st.sampled_from([None, 0, 3, 60]))
    seq = None
    if items:
        seq = draw(st.one_of(st.none(), st.integers(items + 1, items + 8), st.just(items + 1)))
        if seq is not None:
            seq += offset or 0
    step = st.one_of(
        st.tuples(st.just("insert"), KEY, VAL).map(list),
        st.tuples(st.just("insert"), KEY, VAL).map(list),
        st.tuples(st.just("insert"), KEY, VAL).map(list),
        st.tuples(st.just("store"), KEY, VAL).map(list),
        st.tuples(st.just("share"), st.integers(0, 9), VAL).map(list) if copy == "delta2" else
        st.tuples(st.just("insert"), KEY, VAL).map(list),
        st.just(["pop"]))
    prog = draw(st.lists(step, min_size=1, max_size=30))
    return [copy, [size, items, seq, offset], prog]


class E(object):
    __slots__ = ("seq", "k", "v", "ident")

    def __init__(self, k, v, ident):
        self.k, self.v, self.ident, self.seq = k, v, ident, None


def run_ring(case, env):
    copy, limits, prog = case
    size, items, top, offset = limits
    shared = copy == "delta2"
    r = env.worker("jy").call("lru", copy=copy, limits=limits, program=prog)
    if "exc" in r:
        raise Violation("exception", "%s: %s %s %s" % (copy, r["exc"], r["msg"], r["tb"]))
    held = []
    nxt = offset or 0
    evicted = wrapped = False
    fresh = 0

    def used():
        """Bytes held: every value, and every name once per group that shares it."""
        keys = dict((e.ident, len(e.k)) for e in held)
        return sum(len(e.v) for e in held) + sum(keys.values())

    def need(e):
        return len(e.v) + (0 if any(h.ident == e.ident for h in held) else len(e.k))

    def put(e):
        nonlocal nxt, wrapped
        e.seq = nxt
        nxt += 1
        if top is not None and nxt >= top:
            nxt = offset or 0
        held.append(e)
        wrapped |= len(held) > 1 and held[0].seq > held[-1].seq

    for i, (step, got) in enumerate(zip(prog, r["ok"])):
        what = "%s limits %r step %d %r" % (copy, limits, i, step)
        want = None
        if step[0] == "pop":
            # popping an empty storage is not defined alike in the copies
            want = 1 if held else 0
            if held:
                held.pop(0)
        elif step[0] in ("insert", "share"):
            e = None
            if step[0] == "insert":
                fresh += 1
                e = E(step[1], step[2], fresh)
            elif held:
                at = step[1] % len(held)
                src = held[at]
                e = E(src.k, step[2], src.ident)
            if e is not None:
                ok = 1
                if items == 0 or size == 0:
                    ok = 0
                else:
                    if items is not None:
                        while len(held) + 1 > items:
                            held.pop(0)
                            evicted = True
                    if size is not None:
                        while used() + need(e) > size:
                            if not held:
                                ok = 0
                                break
                            held.pop(0)
                            evicted = True
                if ok:
                    put(e)
                want = ok if step[0] == "insert" else [at, ok]
        elif step[0] == "store":
            fresh += 1
            e = E(step[1], step[2], fresh)
            if (size is not None and used() + need(e) > size) or (items and len(held) + 1 > items) or (items == 0):
                want = 0
                if items == 0:
                    want = got["r"]      # a limit of none at all only binds Reserve
                    if want:
                        put(e)
            else:
                put(e)
                want = 1
        if got["r"] != want:
            raise Violation("result", "%s gave %r, expected %r" % (what, got["r"], want))
        w = [[e.seq, e.k, e.v] for e in held]
        if got["held"] != w:
            raise Violation("held", "%s: holds %r, expected %r" % (what, got["held"], w))
        if got["n"] != len(held):
            raise Violation("held", "%s: length %r of %d entries" % (what, got["n"], len(held)))
        if got["bytes"] != used():
            raise Violation("bytes", "%s: %d bytes counted, %d held" % (what, got["bytes"], used()))
        if got["looked"] != [[e.k, e.v] for e in held]:
            raise Violation("lookup", "%s: looking up %r gave %r" % (what, w, got["looked"]))
        for k, v, ki, vi in got["found"]:
            ks = [e.seq for e in held if e.k == k]
            vs = [e.seq for e in held if e.k == k and e.v == v]
            if (vi is None) != (not vs) or (vs and vi not in vs):
                raise Violation("find", "%s: looking for %r %r in %r found the entry %r, expected one of %r" % (what, k, v, w, vi, vs))
            if (ki is None) != (not ks) or (ks and ki not in ks):
                raise Violation("find-key", "%s: looking for the name %r in %r found %r, expected one of %r" % (what, k, w, ki, ks))
            if vs and vi != vs[-1]:
                raise Violation("find-latest", "%s: looking for %r %r in %r found %r, expected the latest, %r" % (what, k, v, w, vi, vs[-1]))
    return {"nontrivial": evicted or wrapped, "labels": [copy] + (["wrapped"] if wrapped else []) + (["evicted"] if evicted else [])}


# ---------------------------------------------------------------- delta

@st.composite
def delta_case(draw):
    size = draw(st.integers(60, 200))
    items = draw(st.integers(1, 8))
    pairs = st.one_of(st.tuples(KEY, VAL), st.tuples(KEY, VAL),
                      st.sampled_from([(":method", "get"), (":path", "/"), ("cookie", "")]),
                      st.tuples(st.sampled_from(["cookie", "date", ":method"]), VAL))
    seen = draw(st.lists(pairs, min_size=1, max_size=6))
    step = st.one_of(pairs.map(lambda p: ["insert"] + list(p)),
                     st.sampled_from(seen).map(lambda p: ["insert"] + list(p)),
                     st.sampled_from(seen).map(lambda p: ["touch"] + list(p)),
                     pairs.map(lambda p: ["touch"] + list(p)))
    return [[size, items], draw(st.lists(step, min_size=1, max_size=30))]


def run_delta(case, env):
    limits, prog = case
    size, items = limits
    w = env.worker("jy")
    if "defaults" not in env.__dict__:
        d = w.call("delta_defaults")
        if "exc" in d:
            raise Violation("exception", "%s %s %s" % (d["exc"], d["msg"], d["tb"]))
        env.defaults = [tuple(x) for x in d["ok"]]
    static = set(env.defaults)
    static_keys = set(k for k, _ in static)
    r = w.call("delta_storage", limits=limits, program=prog)
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    lru = []        # (k, v), least recently used first
    ids = {}
    evicted = touched = False

    def used():
        return sum(len(v) for _, v in lru) + sum(len(k) for k in set(k for k, _ in lru) - static_keys)

    for i, (step, got) in enumerate(zip(prog, r["ok"])):
        what = "delta limits %r step %d %r" % (limits, i, step)
        name, k, v = step
        gone = []
        want = None
        if name == "insert":
            want = not ((k, v) in static or (k, v) in lru)
            if want:
                # first the name makes room for itself, then the value
                def key_cost():
                    return 0 if k in static_keys or any(h[0] == k for h in lru) else len(k)
                new_key = key_cost()
                if new_key:
                    while used() + new_key > size and lru:
                        gone.append(lru.pop(0))
                while len(lru) + 1 > items and lru:
                    gone.append(lru.pop(0))
                while used() + key_cost() + len(v) > size and lru:
                    gone.append(lru.pop(0))
                evicted |= bool(gone)
                lru.append((k, v))
        elif (k, v) in lru:
            lru.remove((k, v))
            lru.append((k, v))
            want = touched = True
        elif (k, v) in static:
            want = True
        if got["r"] != want:
            raise Violation("delta-result", "%s gave %r, expected %r" % (what, got["r"], want))
        if [tuple(x) for x in got["gone"]] != gone:
            raise Violation("delta-evicted", "%s evicted %r, expected %r" % (what, got["gone"], gone))
        if got["n"] != len(lru) or got["bytes"] != used():
            raise Violation("delta-size", "%s: %d entries and %d bytes counted, %d and %d held" % (what, got["n"], got["bytes"], len(lru), used()))
        if got["n"] > items or got["bytes"] > size:
            raise Violation("delta-limit", "%s: %d entries, %d bytes" % (what, got["n"], got["bytes"]))
        numbers = {}
        for pk, pv, idx, back in got["found"]:
            there = (pk, pv) in lru or (pk, pv) in static
            if (idx is not None) != there:
                raise Violation("delta-find", "%s: %r %r is%s held, but found under %r" % (what, pk, pv, "" if there else " not", idx))
            if there:
                if back != [pk, pv]:
                    raise Violation("delta-lookup", "%s: number %r of %r %r leads to %r" % (what, idx, pk, pv, back))
                if numbers.setdefault(idx, (pk, pv)) != (pk, pv):
                    raise Violation("delta-number", "%s: %r stands for two entries" % (what, idx))
                if ids.get((pk, pv), idx) != idx and (pk, pv) not in gone:
                    raise Violation("delta-number", "%s: %r %r changed its number from %r to %r" % (what, pk, pv, ids[(pk, pv)], idx))
                ids[(pk, pv)] = idx
        for g in gone:
            ids.pop(g, None)
    return {"nontrivial": evicted, "labels": (["evicted"] if evicted else []) + (["touched"] if touched else [])}


TARGETS = [Target("ring", ring_case, run_ring, 2500),
           Target("delta", delta_case, run_delta, 1500)]
