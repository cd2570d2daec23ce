"""Independent model of the first delta codec's peer: reads its frames, keeps
its storage and header groups, and writes conforming frames."""
from collections import OrderedDict

from .bits import Reader, Writer
from .http2draft import WireError

DEFAULTS = [(":path", "/"), (":scheme", "http"), (":scheme", "https"), (":method", "get"), (":host", ""), ("cookie", ""),
            (":status", "200"), (":status-text", "OK"), (":version", "1.1")] + [(n, "") for n in (
    "accept accept-charset accept-encoding accept-language accept-ranges allow authorizations cache-control content-base "
    "content-encoding content-length content-location content-md5 content-range content-type date etag expect expires from "
    "if-match if-modified-since if-none-match if-range if-unmodified-since last-modified location max-forwards origin pragma "
    "proxy-authenticate proxy-authorization range referer retry-after server set-cookie status te trailer transfer-encoding "
    "upgrade user-agent vary via warning www-authenticate access-control-allow-origin content-disposition get-dictionary p3p "
    "x-content-type-options x-frame-options x-powered-by x-xss-protection").split()] + [("connection", "keep-alive")]

CODES = {"toggl": 1, "trang": 2, "clone": 3, "kvsto": 4, "eref": 5}
NAMES = {v: k for k, v in CODES.items()}
FIELDS = {"toggl": ["index"], "trang": ["index", "index_start"], "clone": ["key_idx", "val"], "kvsto": ["key", "val"], "eref": ["key", "val"]}
HEADER = 9
LIMIT = 1 << 16


class Ids(object):
    """Numbers handed out in turn, skipping those in use."""

    def __init__(self):
        self.last, self.low = 0, 0

    def next(self, used):
        for _ in range(LIMIT + 1):
            self.last += 1
            if self.last >= LIMIT:
                self.last = self.low
            if self.last not in used:
                return self.last
        raise WireError("no number left")


class Entry(object):
    __slots__ = ("k", "v", "idx", "fixed")

    def __init__(self, k, v, fixed=False):
        self.k, self.v, self.fixed, self.idx = k, v, fixed, None


class Peer(object):
    def __init__(self, book, max_bytes=16 * 1024, max_entries=4096):
        self.book = book
        self.max_bytes, self.max_entries = max_bytes, max_entries
        self.keys = {}                  # name -> number
        self.by_key = {}                # number -> name
        self.vals = {}                  # name -> {value: entry}
        self.by_idx = {}
        self.order = OrderedDict()      # idx -> entry, least recently used first
        self.ids, self.key_ids = Ids(), Ids()
        self.size = self.count = 0
        self.groups = {}
        self.evicted = self.over = 0
        self.kinds = {}
        for k, v in DEFAULTS:
            if k not in self.keys:
                self.add_key(k)
            e = Entry(k, v, True)
            e.idx = self.ids.next(self.by_idx)
            self.by_idx[e.idx] = e
            self.vals[k][v] = e
        self.ids.low = e.idx

    def add_key(self, k):
        n = self.key_ids.next(self.by_key)
        self.keys[k], self.by_key[n], self.vals[k] = n, k, {}

    def live(self):
        return sorted(self.by_idx)

    def entry(self, idx):
        if idx not in self.by_idx:
            raise WireError("no entry has number %d" % idx)
        return self.by_idx[idx]

    def pop(self, keep):
        """Evicts the least recently used entry; `keep`: a name in use."""
        if not self.order:
            return False
        idx, e = self.order.popitem(last=False)
        del self.by_idx[idx]
        del self.vals[e.k][e.v]
        self.size -= len(e.v)
        self.count -= 1
        if not self.vals[e.k] and e.k != keep:
            self.size -= len(e.k)
            del self.by_key[self.keys.pop(e.k)]
            del self.vals[e.k]
        for g in self.groups.values():
            g.discard(idx)
        self.evicted += 1
        return True

    def room(self, n, entries, keep=None):
        while self.count + entries > self.max_entries:
            if not self.pop(keep):
                return
        while self.size + n > self.max_bytes:
            if not self.pop(keep):
                return

    def store(self, k, v):
        """-> the new entry's number, None if it is there already."""
        if k not in self.keys:
            self.room(len(k), 0)
            self.add_key(k)
            self.size += len(k)
        if v in self.vals[k]:
            return None
        self.room(len(v), 1, k)
        e = Entry(k, v)
        self.vals[k][v] = e
        self.size += len(v)
        self.count += 1
        e.idx = self.ids.next(self.by_idx)
        self.by_idx[e.idx] = e
        self.order[e.idx] = e
        if self.size > self.max_bytes or self.count > self.max_entries:
            self.over += 1
        return e.idx

    # -- frames
    def frame(self, data):
        """-> (group, headers) of one frame."""
        if len(data) < HEADER:
            raise WireError("%d bytes" % len(data))
        if int.from_bytes(data[:2], "big") != len(data) - HEADER:
            raise WireError("frame length %d, payload %d" % (int.from_bytes(data[:2], "big"), len(data) - HEADER))
        if data[2] != 1 or data[3:7] != b"\x80\x00\x04\xd2" or data[7] != 8:
            raise WireError("frame header %r" % data[:HEADER])
        return data[8], self.run(data[8], self.parse(data[HEADER:]))

    def parse(self, payload):
        r = Reader(payload)
        ops = []
        while r.left():
            code, n = r.int_(8), r.int_(8) + 1
            if code not in NAMES:
                raise WireError("opcode %d" % code)
            name = NAMES[code]
            for _ in range(n):
                op = {"op": name}
                for f in FIELDS[name]:
                    if f in ("key", "val"):
                        op[f] = self.book.read(r)
                        r.align()
                    else:
                        op[f] = r.int_(16)
                ops.append(op)
                self.kinds[name] = self.kinds.get(name, 0) + 1
        return ops

    def run(self, group, ops):
        g = self.groups.setdefault(group, set())
        toggles, out, later = set(), [], []
        for op in ops:
            kind = op["op"]
            if kind == "toggl":
                flips = [op["index"]]
            elif kind == "trang":
                if op["index_start"] > op["index"]:
                    raise WireError("range from %d to %d" % (op["index_start"], op["index"]))
                flips = range(op["index_start"], op["index"] + 1)
            else:
                if kind == "clone":
                    if op["key_idx"] not in self.by_key:
                        raise WireError("no name has number %d" % op["key_idx"])
                    kv = (self.by_key[op["key_idx"]], op["val"])
                else:
                    kv = (op["key"], op["val"])
                out.append(kv)
                if kind != "eref":
                    later.append(kv)
                continue
            for i in flips:
                self.entry(i)
                if i in toggles:
                    raise WireError("entry %d is toggled twice" % i)
                toggles.add(i)
        g ^= toggles
        for i in sorted(g):
            e = self.by_idx[i]
            out.append((e.k, e.v))
        for k, v in later:
            n = self.store(k, v)
            if n is not None:
                g.add(n)
        for i in sorted(g):
            e = self.by_idx[i]
            for o in self.groups.values():
                o.discard(i)
            del self.by_idx[i]
            if not e.fixed:
                del self.order[i]
            e.idx = self.ids.next(self.by_idx)
            self.by_idx[e.idx] = e
            if not e.fixed:
                self.order[e.idx] = e
            g.add(e.idx)
        return out

    # -- writing
    def write(self, group, ops):
        w = Writer()
        i = 0
        while i < len(ops):
            j = i
            while j < len(ops) and j - i < 256 and ops[j]["op"] == ops[i]["op"]:
                j += 1
            w.int_(CODES[ops[i]["op"]], 8)
            w.int_(j - i - 1, 8)
            for op in ops[i:j]:
                for f in FIELDS[op["op"]]:
                    if f in ("key", "val"):
                        self.book.write(w, op[f])
                        w.align()
                    else:
                        w.int_(op[f], 16)
            i = j
        p = w.bytes()
        return len(p).to_bytes(2, "big") + b"\x01\x80\x00\x04\xd2\x08" + bytes([group]) + p
