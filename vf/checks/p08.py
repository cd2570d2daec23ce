"""P08: the C++ header codec: memory safety, bounds, and frames read by a peer."""
from hypothesis import strategies as st

from .. import cpp
from ..core import Target, Violation

RULE = ("histories of header sets over three groups with limits set at any time, on both copies under AddressSanitizer and UBSan. 'any': anything, duplicates "
        "included: no memory error, state within its bound, well-formed frames; 'wire': no eviction: an independent peer reads every frame and must end with the "
        "header set and the same state size; 'single': one field per frame under tight limits: the peer also evicts, least recently used first, and reuses "
        "identifiers; non-trivial = a field used again, with an eviction in 'single'")
ASSUMPTIONS = ["group ids start at 1 and stream ids leave the control bit (0x8000) free",
               "the built-in entries share the identifier 0 on the wire, so toggles of 0 are compared by number",
               "'wire' and 'single' frames hold no field twice", "little-endian machine"]
prepare = cpp.prepare

DEFAULTS = [(":host", ""), (":method", "get"), (":path", "/"), (":scheme", "https"), (":status", "200"), (":status-text", "OK"),
            (":version", "1.1")] + [(k, "") for k in (
                "accept accept-charset accept-encoding accept-language accept-ranges allow authorizations cache-control content-base content-encoding "
                "content-length content-location content-md5 content-range content-type cookie date etag expect expires from if-match if-modified-since "
                "if-none-match if-range if-unmodified-since last-modified location max-forwards origin pragma proxy-authenticate proxy-authorization range "
                "referer retry-after server set-cookie status te trailer transfer-encoding upgrade user-agent user-agent vary via warning www-authenticate "
                "access-control-allow-origin content-disposition get-dictionary p3p x-content-type-options x-frame-options x-powered-by x-xss-protection").split()]
DSET = set(DEFAULTS)

KEY = st.one_of(st.sampled_from(["accept", "cookie", ":path", ":method", "via", "p3p", "user-agent", "x-frame-options"]),
                st.sampled_from(["a", "b", "x-one", "x-two", "", "Accept", "cookiee"]), st.text("ab\xff\x00 ;", max_size=3))
VAL = st.one_of(st.sampled_from(["", "get", "/", "200", "v", "w", "a", "gzip, deflate", "x" * 40]), st.text("ab;=\xff\x00 ", max_size=4),
                st.integers(0, 30).map(lambda n: "k%d=%s" % (n, "y" * n)))
COOKIE = st.lists(st.sampled_from(["a=1", "b=2", "c=3", "d=4", "", "long=" + "z" * 20]), max_size=5).flatmap(
    lambda cs: st.sampled_from([";", "; ", ";  "]).map(lambda j: j.join(cs)))
FIELD = st.one_of(st.tuples(KEY, VAL), st.tuples(KEY, VAL), st.tuples(st.just("cookie"), COOKIE)).map(list)
STREAM = st.one_of(st.integers(0, 0x7fff), st.integers(0, 0xffff).map(lambda n: (n << 16) | 1))


def frame(fields):
    return st.tuples(st.just("F"), st.integers(1, 3), STREAM, st.integers(0, 1), fields).map(list)


@st.composite
def many(draw):
    """A wide frame: counts beyond one opcode's 255."""
    n = draw(st.sampled_from([3, 40, 254, 255, 256, 257, 300, 511]))
    base = draw(st.integers(0, 3))
    key = draw(st.sampled_from(["via", "x-wide", None]))
    step = draw(st.integers(1, 3))
    return [[key or "x%d" % (base + i * step), str(i)] for i in range(n)]


def fields(big=True):
    s = [st.lists(FIELD, max_size=6)] * 5 + ([many()] if big else [])
    return st.one_of(*s)


LIMIT = st.one_of(st.tuples(st.just("S"), st.one_of(st.integers(0, 200), st.integers(800, 1100), st.integers(0, 70000))),
                  st.tuples(st.just("V"), st.one_of(st.integers(0, 80), st.integers(60, 72), st.integers(0, 2000)))).map(list)


def s_any():
    return st.tuples(st.sampled_from(cpp.COPIES), st.sampled_from(["request", "response"]),
                     st.lists(st.one_of(frame(fields()), frame(fields(False)), frame(fields(False)), LIMIT), max_size=14)).map(list)


def s_wire():
    return st.tuples(st.sampled_from(cpp.COPIES), st.sampled_from(["request", "response"]),
                     st.lists(st.one_of(frame(fields()), frame(fields(False)), frame(fields(False)), frame(fields(False))), max_size=8)).map(list)


def s_single():
    f = st.tuples(st.sampled_from(["accept", "via", "x", "y", "zz", "zzz"]), st.sampled_from(["p", "qq", "rrr", "ssss", "t" * 12, "u" * 30]),
                  ).map(lambda kv: [list(kv)])
    lim = st.one_of(st.tuples(st.just("S"), st.integers(0, 60)), st.tuples(st.just("V"), st.integers(62, 70))).map(list)
    return st.tuples(st.sampled_from(cpp.COPIES), st.sampled_from(["request", "response"]), lim,
                     st.lists(st.one_of(frame(f), frame(f), frame(f), frame(f), frame(f), lim), max_size=40)).map(
        lambda c: [c[0], c[1], [c[2]] + c[3]])


def crumbs(fs):
    out = []
    for k, v in fs:
        if k == "cookie" and ";" in v:
            parts = v.split(";")
            parts = [parts[0]] + [p.lstrip(" ") for p in parts[1:]]
            if parts[-1] == "":
                parts.pop()
            out += [(k, p) for p in parts]
        else:
            out.append((k, v))
    return out


def distinct(fs):
    """The same fields without one that would put a field there twice."""
    seen, out = set(), []
    for f in fs:
        c = crumbs([f])
        if len(set(c)) < len(c) or seen & set(c):
            continue
        seen |= set(c)
        out.append(f)
    return out


def request(env, copy, table, ops):
    toks = ["codec", table]
    for o in ops:
        if o[0] == "F":
            toks.append("F %d %d %d %d" % (o[1], o[2], o[3], len(o[4])))
            for k, v in o[4]:
                toks.append(cpp.hx(k.encode("latin-1")) + " " + cpp.hx(v.encode("latin-1")))
        else:
            toks.append("%s %d" % tuple(o))
    return cpp.ask(env, copy, " ".join(toks))


_codes = {}


def code(env, copy, table):
    """Code words of the table, from the coder itself (decided by P04)."""
    if (copy, table) not in _codes:
        r = cpp.ask(env, copy, "huffman 1 " + table)
        words = {}
        for s, (h, n) in enumerate(r["words"]):
            words["".join("{:08b}".format(b) for b in bytes.fromhex(h))[:n]] = s
        _codes[copy, table] = words
    return _codes[copy, table]


class Reader(object):
    def __init__(self, data, words):
        self.bits = "".join("{:08b}".format(b) for b in data)
        self.at = 0
        self.words = words

    def align(self):
        pad = -self.at % 8
        if "1" in self.bits[self.at:self.at + pad]:
            raise ValueError("padding is not zero")
        self.at += pad

    def number(self, n):
        self.align()
        b = self.bits[self.at:self.at + 8 * n]
        if len(b) < 8 * n:
            raise ValueError("the frame ends early")
        self.at += 8 * n
        return int.from_bytes(int(b, 2).to_bytes(n, "big"), "little")

    def string(self):
        out = bytearray()
        while True:
            k = 1
            while self.bits[self.at:self.at + k] not in self.words:
                k += 1
                if k > 32 or self.at + k > len(self.bits):
                    raise ValueError("no code word at bit %d" % self.at)
            s = self.words[self.bits[self.at:self.at + k]]
            self.at += k
            if s == 256:
                return out.decode("latin-1")
            out.append(s)


def read(data, words, stream, ends):
    """(toggled ids, clones, literals)"""
    r = Reader(data, words)
    head = (r.number(2), r.number(1), r.number(4), r.number(1))
    if head != (0, ends, 0x8000 | stream, 8):
        raise ValueError("frame header %r" % (head,))
    toggles, clones, kvs = [], [], []
    while len(r.bits) - r.at >= 8:
        op, n = r.number(1), r.number(1)
        if n == 0:
            raise ValueError("no operations under opcode %d" % op)
        for _ in range(n):
            if op == 2:
                toggles.append(r.number(2))
            elif op == 3:
                a, b = r.number(2), r.number(2)
                if b <= a:
                    raise ValueError("range %d-%d" % (a, b))
                toggles += range(a, b + 1)
            elif op == 0:
                i = r.number(2)
                clones.append((i, r.string()))
            elif op == 1:
                k = r.string()
                kvs.append((k, r.string()))
            else:
                raise ValueError("opcode %d" % op)
    r.align()
    return toggles, clones, kvs


def run_any(case, env):
    copy, table, ops = case
    r = request(env, copy, table, ops)
    words = code(env, copy, table)
    limit, again, i = 64 * 1024, False, 0
    seen = set()
    for o in ops:
        if o[0] == "S":
            limit = o[1]
            continue
        if o[0] != "F":
            continue
        size, data = r["frames"][i]
        i += 1
        fs = crumbs(o[4])
        need = r["base"] + sum(len(v) for _, v in fs) + sum(len(k) for k in {k for k, _ in fs})
        if size > max(limit, need):
            raise Violation("bound", "%s: frame %d leaves a state of %d bytes; the limit is %d, and the frame's own fields need %d" % (
                copy, i, size, limit, need))
        try:
            t, c, kv = read(bytes.fromhex(data), words, o[2], o[3])
        except ValueError as e:
            raise Violation("malformed", "%s: frame %d (%s): %s" % (copy, i, data[:400], e))
        lit = sorted([v for _, v in c] + [v for _, v in kv])
        pool = sorted(v for _, v in fs)
        for v in lit:
            if v not in pool:
                raise Violation("literal", "%s: frame %d holds the literal %r, not among its fields" % (copy, i, v))
            pool.remove(v)
        again |= bool(seen & set(fs))
        seen |= set(fs)
    if i != len(r["frames"]):
        raise Violation("frames", "%d frames for %d header sets" % (len(r["frames"]), i))
    return {"nontrivial": again, "labels": [copy, table]}


class Peer(object):
    def __init__(self):
        self.keys = {"": 0}            # name -> id
        self.names = {0: ""}
        for k, _ in DEFAULTS:
            if k not in self.keys:
                self.new_key(k)
        self.nkeys = len(self.keys)
        self.ids = {}                  # id -> field
        self.stored = {}               # field -> id
        self.order = []                # stored fields, least recently used first
        self.groups = {}
        self.dflt = {}

    def new_key(self, k):
        i = 1
        while i in self.names:
            i += 1
        self.keys[k] = i
        self.names[i] = k

    def size(self, base):
        return base + sum(len(v) for _, v in self.stored) + sum(len(k) for k in self.keys if k and not any(k == d for d, _ in DEFAULTS))

    def add(self, field):
        i = 1
        while i in self.ids:
            i += 1
        self.ids[i] = field
        self.stored[field] = i
        self.order.append(field)

    def use(self, field):
        if field in self.stored:
            self.order.remove(field)
            self.order.append(field)

    def evict(self, field):
        self.order.remove(field)
        del self.ids[self.stored.pop(field)]
        for g in self.groups.values():
            g.discard(field)

    def room(self, extra, one, smax, vmax, field):
        """Evicts what must go, least recently used first, but not the field in hand."""
        any_ = False
        while self.order and self.order[0] != field and (
                self.size(extra) > smax or len(DEFAULTS) + len(self.stored) + one > vmax):
            self.evict(self.order[0])
            self.drop_keys({field[0]})
            any_ = True
        return any_

    def drop_keys(self, keep):
        for k in list(self.keys):
            if k and k not in keep and not any(k == d for d, _ in DEFAULTS) and not any(k == f[0] for f in self.stored):
                del self.names[self.keys.pop(k)]


def apply(peer, where, o, data, words):
    """The peer reads the frame; what it then shows must be the header set."""
    fs = crumbs(o[4])
    try:
        toggles, clones, kvs = read(bytes.fromhex(data), words, o[2], o[3])
    except ValueError as e:
        raise Violation("malformed", "%s (%s): %s" % (where, data[:400], e))
    group = peer.groups.setdefault(o[1], set())
    dflt = peer.dflt.setdefault(o[1], set())
    want_d = {f for f in fs if f in DSET}
    if toggles.count(0) != len(dflt ^ want_d):
        raise Violation("toggles", "%s toggles %d built-in entries; the group had %r and should have %r" % (
            where, toggles.count(0), sorted(dflt), sorted(want_d)))
    peer.dflt[o[1]] = want_d
    for t in toggles:
        if t == 0:
            continue
        if t not in peer.ids:
            raise Violation("toggles", "%s toggles %d, which names no entry (%r)" % (where, t, peer.ids))
        f = peer.ids[t]
        if f in group:
            group.discard(f)
        else:
            group.add(f)
    lits = []
    for i, v in clones:
        if i not in peer.names:
            raise Violation("clone", "%s refers to key %d, which names no key" % (where, i))
        lits.append((peer.names[i], v))
    for k, v in kvs:
        if k in peer.keys:
            raise Violation("literal", "%s spells out the stored name %r" % (where, k))
        lits.append((k, v))
    for f in lits:
        if f in peer.stored or f in DSET:
            raise Violation("literal", "%s sends the stored field %r literally" % (where, f))
    if len(set(lits)) != len(lits):
        raise Violation("literal", "%s sends a field twice: %r" % (where, lits))
    shown = group | set(lits)
    if shown != set(fs) - DSET:
        raise Violation("headers", "%s: the peer sees %r, expected %r" % (where, sorted(shown), sorted(set(fs) - DSET)))
    return lits


def run_wire(case, env):
    copy, table, ops = case
    ops = [o[:4] + [distinct(o[4])] for o in ops]
    r = request(env, copy, table, ops)
    words = code(env, copy, table)
    peer = Peer()
    again = False
    total = 0
    for i, (o, (size, data)) in enumerate(zip(ops, r["frames"])):
        fs = crumbs(o[4])
        total += sum(len(k) + len(v) for k, v in fs)
        if len(peer.stored) + len(fs) > 900 or total > 60000:
            break
        again |= any(f in peer.stored for f in fs)
        where = "%s: frame %d of %d" % (copy, i + 1, len(ops))
        for f in apply(peer, where, o, data, words):
            if f[0] not in peer.keys:
                peer.new_key(f[0])
            peer.add(f)
            peer.groups[o[1]].add(f)
        if size != peer.size(r["base"]):
            raise Violation("size", "%s leaves a state of %d bytes, the peer's is %d" % (where, size, peer.size(r["base"])))
    return {"nontrivial": again, "labels": [copy, table]}


def run_single(case, env):
    copy, table, ops = case
    base0 = request(env, copy, table, [])["base"]
    ops = [["S", base0 + o[1]] if o[0] == "S" else o for o in ops]
    r = request(env, copy, table, ops)
    words = code(env, copy, table)
    peer = Peer()
    smax, vmax = 64 * 1024, 1024
    again = evicted = False
    frames = iter(r["frames"])
    for n, o in enumerate(ops):
        if o[0] == "S":
            smax = o[1]
            continue
        if o[0] == "V":
            vmax = o[1]
            continue
        size, data = next(frames)
        field = tuple(o[4][0])
        again |= field in peer.stored
        where = "%s: operation %d" % (copy, n + 1)
        for f in apply(peer, where, o, data, words):
            # room is made for a new key before it gets its number, then for
            # the value before the entry gets its own
            if f[0] not in peer.keys:
                evicted |= peer.room(r["base"] + len(f[0]), 0, smax, vmax, f)
                peer.new_key(f[0])
            evicted |= peer.room(r["base"] + len(f[1]), 1, smax, vmax, f)
            peer.add(f)
            peer.groups[o[1]].add(f)
        peer.use(field)
        evicted |= peer.room(r["base"], 0, smax, vmax, field)
        if size != peer.size(r["base"]):
            raise Violation("size", "%s leaves a state of %d bytes, the peer's is %d (limits %d bytes, %d entries)" % (
                where, size, peer.size(r["base"]), smax, vmax))
    return {"nontrivial": again and evicted, "labels": [copy, table] + (["evicted"] if evicted else [])}


TARGETS = [Target("any", s_any, run_any, 3000), Target("wire", s_wire, run_wire, 2000), Target("single", s_single, run_single, 4000)]
