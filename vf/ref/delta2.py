"""Independent model of the second delta codec's peer: reads its frames, keeps
its storage and header groups, and writes conforming frames."""
from collections import OrderedDict
from .bits import Reader, Writer
from .http2draft import WireError

DEFAULTS = [(":scheme", "http"), ("connection", "keep-alive")] + [(n, "") for n in (
    "x-xss-protection x-powered-by x-frame-options x-content-type-options p3p get-dictionary content-disposition "
    "access-control-allow-origin www-authenticate warning via vary user-agent upgrade transfer-encoding trailer te status "
    "set-cookie server retry-after referer range proxy-authorization proxy-authenticate pragma origin max-forwards location "
    "last-modified if-unmodified-since if-range if-none-match if-modified-since if-match from expires expect etag date "
    "content-type content-range content-md5 content-location content-length content-encoding content-base cache-control "
    "authorizations allow accept-ranges accept-language accept-encoding accept-charset accept").split()] + [
    (":version", "1.1"), (":status-text", "OK"), (":status", "200"), ("cookie", ""), (":host", ""), (":scheme", "https"),
    (":method", "get"), (":path", "/")]
NSTATIC = len(DEFAULTS)
OPS = ["stoggl", "etoggl", "strang", "etrang", "sclone", "eclone", "skvsto", "ekvsto"]
FIELDS = {"toggl": ["index"], "trang": ["index", "index_start"], "clone": ["index", "val"], "kvsto": ["key", "val"]}
HEADER = 9


class Str(object):
    """A string object that several stored entries may hold."""
    __slots__ = ("s", "holders")

    def __init__(self, s, holders=0):
        self.s = s
        self.holders = holders


class Entry(object):
    __slots__ = ("k", "v", "seq")

    def __init__(self, k, v):
        self.k, self.v, self.seq = k, v, None

    def cost(self):
        """What storing it adds: its strings that no stored entry holds."""
        return sum(len(x.s) for x in (self.k, self.v) if not x.holders)


class Peer(object):
    def __init__(self, book, max_bytes=4096, max_entries=1024, small=True, varint=True, hg_adjust=False,
                 implicit=False, refcnt=False, from_end=True):
        self.book = book
        self.varint, self.small = varint, small
        self.max_seq = 255 if small else 65535
        self.max_entries = min(self.max_seq - NSTATIC, max_entries)
        self.max_bytes = max_bytes
        self.hg_adjust, self.implicit, self.refcnt, self.from_end = hg_adjust, implicit, refcnt, from_end
        self.static = [Entry(Str(k, 1), Str(v, 1)) for k, v in DEFAULTS]
        self.ring = []                  # oldest first
        self.seq = NSTATIC
        self.size = 0
        self.groups = {}
        self.evicted = self.refused = 0
        self.kinds = {}

    # -- indices
    def count(self):
        return NSTATIC + len(self.ring)

    def by_seq(self, seq):
        if seq < NSTATIC:
            return self.static[seq]
        for e in self.ring:
            if e.seq == seq:
                return e
        raise WireError("no entry has number %d" % seq)

    def to_seq(self, idx):
        """Index on the wire -> number of the entry."""
        if not self.from_end:
            self.by_seq(idx)
            return idx
        if idx >= self.count():
            raise WireError("index %d of %d entries" % (idx, self.count()))
        if idx < len(self.ring):
            return self.ring[-1 - idx].seq
        return NSTATIC - 1 - (idx - len(self.ring))

    def to_wire(self, seq):
        if not self.from_end:
            return seq
        if seq < NSTATIC:
            return len(self.ring) + NSTATIC - 1 - seq
        return [e.seq for e in reversed(self.ring)].index(seq)

    def live(self):
        return list(range(NSTATIC)) + [e.seq for e in self.ring]

    # -- storage
    def pop(self):
        e = self.ring.pop(0)
        e.k.holders -= 1
        e.v.holders -= 1
        self.size -= e.cost()
        for g in self.groups.values():
            g.discard(e.seq)
        self.evicted += 1

    def store(self, e):
        """-> its number, or None if it cannot be stored."""
        ok = self.max_entries > 0 and self.max_bytes > 0
        while ok and len(self.ring) + 1 > self.max_entries:
            self.pop()
        while ok and self.size + e.cost() > self.max_bytes:
            if not self.ring:
                ok = False
            else:
                self.pop()
        if not ok:
            self.refused += 1
            return None
        e.seq = self.seq
        self.seq += 1
        if self.seq >= self.max_seq:
            self.seq = NSTATIC
        self.size += e.cost()
        e.k.holders += 1
        e.v.holders += 1
        self.ring.append(e)
        if len(self.ring) > self.max_entries or self.size > self.max_bytes:
            raise WireError("model storage out of bounds")
        return e.seq

    # -- frames
    def frame(self, data):
        """-> (group, headers) of one frame."""
        if len(data) < HEADER:
            raise WireError("%d bytes" % len(data))
        if int.from_bytes(data[:2], "big") != len(data) - HEADER:
            raise WireError("frame length %d, payload %d" % (int.from_bytes(data[:2], "big"), len(data) - HEADER))
        if data[2:4] != b"\x08\x01" or data[4:8] != b"\x80\x00\xff\xff":
            raise WireError("frame header %r" % data[:HEADER])
        return data[8], self.run(data[8], self.parse(data[HEADER:]))

    def parse(self, payload):
        r = Reader(payload)
        ops = []
        while r.left() >= 8:
            code, n = r.int_(4), r.int_(4) + 1
            if code >= len(OPS):
                raise WireError("opcode %d" % code)
            name = OPS[code]
            for _ in range(n):
                op = {"op": name}
                for f in FIELDS[name[1:]]:
                    op[f] = self.read_index(r) if f.startswith("index") else self.read_str(r)
                ops.append(op)
                self.kinds[name] = self.kinds.get(name, 0) + 1
        r.align()
        return ops

    def read_index(self, r):
        if not self.varint:
            return r.int_(8 if self.small else 16)
        v = r.int_(4)
        if v == 15:
            shift = 0
            while True:
                n = r.int_(4)
                v += (n & 7) << shift
                shift += 3
                if not n & 8:
                    break
        return v

    def read_str(self, r):
        s = self.book.read(r)
        r.align()
        return s

    def run(self, group, ops):
        """-> list of (name, value)"""
        g = self.groups.setdefault(group, set())
        out, later = [], []
        once, keep = set(), set()
        for op in ops:
            kind = op["op"]
            if kind.endswith("toggl"):
                (once if kind[0] == "e" else keep).symmetric_difference_update([self.to_seq(op["index"])])
            elif kind.endswith("trang"):
                a, b = self.to_seq(op["index_start"]), self.to_seq(op["index"])
                if a > b:
                    raise WireError("range from %d to %d" % (a, b))
                (once if kind[0] == "e" else keep).symmetric_difference_update(range(a, b + 1))
            elif kind.endswith("clone"):
                base = self.by_seq(self.to_seq(op["index"]))
                out.append((base.k.s, op["val"]))
                if kind[0] == "s":
                    later.append(Entry(base.k, Str(op["val"])))
            else:
                out.append((op["key"], op["val"]))
                if kind[0] == "s":
                    later.append(Entry(Str(op["key"]), Str(op["val"])))
        g ^= keep
        for seq in sorted(once ^ g):
            e = self.by_seq(seq)
            out.append((e.k.s, e.v.s))
        adjust = [(self.by_seq(s), s) for s in sorted(g)] if self.hg_adjust else []
        for e in later:
            n = self.store(e)
            if self.implicit and n is not None:
                g.add(n)
        for e, old in adjust:
            g.discard(old)
            n = self.store(Entry(e.k, e.v if self.refcnt else Str(e.v.s)))
            if n is not None:
                g.add(n)
        return out

    # -- writing
    def write(self, group, ops):
        """Frame of the given ops, indices already in wire form, in order."""
        w = Writer()
        i = 0
        while i < len(ops):
            j = i
            while j < len(ops) and j - i < 16 and ops[j]["op"] == ops[i]["op"]:
                j += 1
            w.int_(OPS.index(ops[i]["op"]), 4)
            w.int_(j - i - 1, 4)
            for op in ops[i:j]:
                for f in FIELDS[op["op"][1:]]:
                    if f.startswith("index"):
                        self.write_index(w, op[f])
                    else:
                        self.book.write(w, op[f])
                        w.align()
            i = j
        p = w.bytes()
        return len(p).to_bytes(2, "big") + b"\x08\x01\x80\x00\xff\xff" + bytes([group]) + p

    def write_index(self, w, v):
        if not self.varint:
            w.int_(v, 8 if self.small else 16)
        elif v < 15:
            w.int_(v, 4)
        else:
            w.int_(15, 4)
            v -= 15
            while v > 7:
                w.int_(8 | (v & 7), 4)
                v >>= 3
            w.int_(v, 4)
