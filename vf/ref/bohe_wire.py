"""Readers of what the value-aware codecs emit. The blocks of `bohe` can be
read as they are; typed values inside the delta variants' frames have no
terminator, so these are read with the message's fields as candidates."""
from . import bohe as R
from .bits import Reader
from .http2draft import WireError

TYPED = set("last-modified date expires if-modified-since if-unmodified-since :status content-length age set-cookie cookie "
            "cache-control :method accept accept-language accept-encoding accept-charset etag if-match if-none-match p3p".split())

REGISTERED = (":path accept-language accept-encoding accept user-agent :scheme connection :method :host :version referer cookie x-requested-with "
              "content-length pragma cache-control content-type :status keep-alive server location date :status-text transfer-encoding set-cookie "
              "expires vary p3p content-encoding x-amz-id-2 x-amz-id-1 x-amzn-requestid x-pad nncoection accept-ranges last-modified etag "
              "x-frame-options x-sap-pg if-modified-since via x-cache age x-amz-cf-id cneonction x-cache-lookup x-xss-protection if-none-match "
              "x-amz-request-id x-amz-meta-jets3t-original-file-date-iso8601 x-amz-meta-md5-hash content-location x-ocsp-reponder-id "
              "content-transfer-encoding x-content-type-options x-host dl_s").split()

_REST = ("accept accept-charset accept-encoding accept-language accept-ranges allow authorizations cache-control content-base content-encoding "
         "content-length content-location content-md5 content-range content-type etag expect expires from if-match if-modified-since if-none-match "
         "if-range if-unmodified-since last-modified location max-forwards origin pragma proxy-authenticate proxy-authorization range referer "
         "retry-after server set-cookie status te trailer transfer-encoding upgrade user-agent vary via warning www-authenticate "
         "access-control-allow-origin content-disposition get-dictionary p3p x-content-type-options x-frame-options x-powered-by x-xss-protection").split()
_FIRST = [("date", ""), (":scheme", "https"), (":method", "get"), (":path", "/"), (":host", ""), ("cookie", ""), (":status", "200"),
          (":status-text", "OK"), (":version", "1.1")]

# delta_bohe: a set of names; delta2_bohe: a list, one name twice.
BUILTIN1 = dict(_FIRST + [(k, "") for k in _REST])
STATIC2 = []
for _k, _v in _FIRST + [(k, "") for k in _REST]:
    STATIC2 += [(_k, _v)] * (2 if _k == "user-agent" else 1)
STATIC2 += [("connection", "keep-alive")]
BUILTIN = sorted(BUILTIN1)

# Values to probe the typed names with: text and encoding, all different.
SOME = {}
for _i, _k in enumerate("last-modified date expires if-modified-since if-unmodified-since :status content-length".split()):
    SOME[_k] = (str(1001 + _i), R.uv(1001 + _i))
for _k in "etag if-match if-none-match".split():
    SOME[_k] = ('"%s"' % _k, R.etags(['"%s"' % _k]))
for _k in "accept accept-language accept-encoding accept-charset".split():
    SOME[_k] = (_k + "-probe", (_k + "-probe").encode())
SOME["set-cookie"] = ("p=x!", R.set_cookie("delta_bohe", [{"name": "p", "value": "x!"}]))
SOME["cookie"] = ("p=x!", R.cookie([["p", "x!"]]))
SOME[":method"] = ("probe-method", b"probe-method")
SOME["p3p"] = ('policyref="/p"', R.p3p("/p", None))

REACHABLE = [(k, v, v.encode()) for k, v in sorted(BUILTIN1.items()) if k not in TYPED or k.startswith("accept")]


def raw(r, n):
    if 8 * n > r.left():
        raise WireError("%d bytes wanted, %d bits left" % (n, r.left()))
    return bytes(r.int_(8) for _ in range(n))


def block(data, book):
    """-> [(name, encoded value, flagged as several values)]"""
    r = Reader(data)
    out = []
    while r.left() >= 8:
        n = r.int_(8)
        if n & 128:
            key = raw(r, n & 127).decode("latin-1")
            if r.int_(1):
                raise WireError("a literal field is flagged as typed")
            typed = False
        else:
            if n == 0 or n > len(REGISTERED):
                raise WireError("registered name %d" % n)
            key = REGISTERED[n - 1]
            typed = key in TYPED
            if typed and not r.int_(1):
                raise WireError("%s is not flagged as typed" % key)
        multi = bool(r.int_(1))
        size = r.int_(22)
        if typed:
            val = raw(r, size)
        else:
            at = r.pos
            val = book.read(r).encode("latin-1")
            if (r.pos - at + 7) // 8 != size:
                raise WireError("%s: a value of %d bits is said to have %d bytes" % (key, r.pos - at, size))
        out.append((key, val, multi))
    r.align()
    if r.left():
        raise WireError("%d bits left" % r.left())
    return out


def huff(book, data):
    b = "".join(book.words[c] for c in data) + book.words[256]
    return b + "0" * (-len(b) % 8)


def plain(data):
    return "".join(format(c, "08b") for c in data)


def ops(data, grouped, book, want, name_of):
    """-> operations of a frame: ("toggl", index), ("clone", name, index,
    value), ("kvsto", name, value). name_of(index): None = any name."""
    head = 9 if grouped else 8
    if len(data) < head or int.from_bytes(data[:2], "big") != len(data) - head:
        raise WireError("frame length %r, %d bytes follow the header" % (data[:2], len(data) - head))
    if data[2] != 1 or data[3:7] != b"\x80\x00\x04\xd2" or data[7] != 8:
        raise WireError("frame header %r" % data[:head])
    vals = [(k, v, plain(v) if k in TYPED else huff(book, v)) for k, v in sorted(want)]
    names = {k: plain(k.encode("latin-1")) if k in TYPED else huff(book, k.encode("latin-1")) for k, _ in want}
    bits = plain(data[head:])
    problem = []

    def number(pos, n):
        if pos + n > len(bits):
            raise WireError("the frame ends within an operation")
        return int(bits[pos:pos + n], 2)

    def read(pos, kind, left, used):
        out = []
        while True:
            if not left:
                if pos == len(bits):
                    return out
                kind, left = number(pos, 8), number(pos + 8, 8) + 1
                pos += 16
                if not 1 <= kind <= 4:
                    raise WireError("opcode %d" % kind)
            left -= 1
            if kind == 1:
                out.append(("toggl", number(pos, 16)))
                pos += 16
                continue
            if kind == 2:
                last, first = number(pos, 16), number(pos + 16, 16)
                pos += 32
                if first > last:
                    raise WireError("range from %d to %d" % (first, last))
                out += [("toggl", i) for i in range(first, last + 1)]
                continue
            found = []
            if kind == 3:
                idx = number(pos, 16)
                pos += 16
                name = name_of(idx)
            for i, (k, v, b) in enumerate(vals):
                if i in used:
                    continue
                if kind == 3 and name in (None, k):
                    if bits.startswith(b, pos):
                        found.append((i, ("clone", k, idx, v), pos + len(b)))
                elif kind == 4 and bits.startswith(names[k], pos) and bits.startswith(b, pos + len(names[k])):
                    found.append((i, ("kvsto", k, v), pos + len(names[k]) + len(b)))
            if not found:
                raise WireError("no field of the message follows at bit %d (%s)" % (pos, "clone of %d, %r" % (idx, name) if kind == 3 else "kvsto"))
            if len(found) == 1:
                i, op, pos = found[0]
                used = used | {i}
                out.append(op)
                continue
            for i, op, p in found:
                try:
                    return out + [op] + read(p, kind, left, used | {i})
                except WireError as e:
                    problem.append(e)
            raise problem[-1]
    return read(0, 0, 0, frozenset())


class _Peer(object):
    grouped = False

    def __init__(self, book):
        self.book = book
        self.kinds = {}
        self.count = self.size = 0      # of what was stored

    def frame(self, data, want):
        o = ops(data, self.grouped, self.book, want, self.name)
        group = self.groups.setdefault(data[8] if self.grouped else 0, set())
        flips = set()
        for op in o:
            self.kinds[op[0]] = self.kinds.get(op[0], 0) + 1
            if op[0] == "toggl":
                if op[1] not in self.entries:
                    raise WireError("no entry has number %d" % op[1])
                if op[1] in flips:
                    raise WireError("entry %d is toggled twice" % op[1])
                flips.add(op[1])
        group ^= flips
        for op in o:
            if op[0] != "toggl":
                group.add(self.add(op[1], op[-1]))
        out = [self.entries[i] for i in sorted(group)]
        self.adjust(group)
        return out

    def add(self, k, v):
        self.count += 1
        self.size += len(k) + len(v)
        self.last += 1
        self.entries[self.last] = (k, v)
        return self.last


class Peer1(_Peer):
    """Of delta_bohe: one group, whose entries are renumbered after each
    message; names have numbers of their own."""

    def __init__(self, book, keys, entries):
        _Peer.__init__(self, book)
        self.keys = {i: k for k, i in keys.items()}
        self.known = set(keys)
        self.last_key = max(self.keys)
        self.entries = dict(entries)
        self.last = len(BUILTIN1)
        self.groups = {}

    def name(self, i):
        if i not in self.keys:
            raise WireError("no name has number %d" % i)
        return self.keys[i]

    def add(self, k, v):
        if k not in self.known:
            self.last_key += 1
            self.keys[self.last_key] = k
            self.known.add(k)
        return _Peer.add(self, k, v)

    def adjust(self, group):
        for i in sorted(group):
            e = self.entries.pop(i)
            group.discard(i)
            group.add(_Peer.add(self, *e))


class Peer2(_Peer):
    """Of delta2_bohe: a group by host, whose entries are stored again after
    each message; names are found through entries."""
    grouped = True

    def __init__(self, book):
        _Peer.__init__(self, book)
        self.entries = {i: (k, v.encode()) for i, (k, v) in enumerate(STATIC2)}
        self.last = len(STATIC2) - 1
        self.groups = {}

    def name(self, i):
        if i not in self.entries:
            raise WireError("no entry has number %d" % i)
        return self.entries[i][0]

    def adjust(self, group):
        for i in sorted(group):
            self.add(*self.entries[i])
