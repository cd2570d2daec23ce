"""Independent decoder/encoder of the header-compression draft the http2 codec
implements (integers with 0..7-bit prefixes, reference set, substitution)."""


class WireError(Exception):
    pass


REQ = [(":scheme", "http"), (":scheme", "https"), (":host", ""), (":path", "/"), (":method", "get")] + [
    (n, "") for n in
    "accept accept-charset accept-encoding accept-language cookie if-modified-since user-agent referer authorization "
    "allow cache-control connection content-length content-type date expect from if-match if-none-match if-range "
    "if-unmodified-since max-forwards proxy-authorization range via".split()]
RES = [(":status", "200")] + [
    (n, "") for n in
    "age cache-control content-length content-type date etag expires last-modified server set-cookie vary via "
    "access-control-allow-origin accept-ranges allow connection content-disposition content-encoding content-language "
    "content-location content-range link location proxy-authenticate refresh retry-after strict-transport-security "
    "transfer-encoding www-authenticate".split()]


def enc_int(value, prefix, flags=0):
    limit = (1 << prefix) - 1
    out = bytearray()
    if prefix and value < limit:
        return bytes([flags | value])
    if prefix:
        out.append(flags | limit)
        value -= limit
    while True:
        if value < 128:
            out.append(value)
            return bytes(out)
        out.append(0x80 | (value & 0x7f))
        value >>= 7


class Entry(object):
    __slots__ = ("h", "ref", "emitted")

    def __init__(self, h, ref=False, emitted=False):
        self.h, self.ref, self.emitted = h, ref, emitted


def esize(h):
    return len(h[0]) + len(h[1]) + 32


class Decoder(object):
    def __init__(self, is_request, max_size):
        self.table = [Entry(h) for h in (REQ if is_request else RES)]
        self.max = max_size
        self.inserted = 0
        self.evicted = 0

    def size(self):
        return sum(esize(e.h) for e in self.table)

    def get_int(self, prefix):
        v = 0
        limit = (1 << prefix) - 1
        if prefix:
            v = self.byte & limit
            if v < limit:
                return v
        shift = 0
        while True:
            b = self.next()
            v += (b & 0x7f) << shift
            shift += 7
            if not b & 0x80:
                return v

    def next(self):
        if self.p >= len(self.b):
            raise WireError("block ends inside a representation")
        self.p += 1
        return self.b[self.p - 1]

    def get_str(self):
        n = self.get_int(0)
        if self.p + n > len(self.b):
            raise WireError("string of %d bytes runs past the block" % n)
        s = self.b[self.p:self.p + n].decode("latin-1")
        self.p += n
        return s

    def entry(self, i):
        if i >= len(self.table):
            raise WireError("index %d of a table of %d" % (i, len(self.table)))
        return self.table[i]

    def insert(self, e, replace=None):
        """replace: index of the entry being substituted."""
        need = esize(e.h)
        victim = self.table[replace] if replace is not None else None
        # Space is needed for the new entry in place of the replaced one.
        while self.table:
            used = self.size()
            if victim is not None and any(x is victim for x in self.table):
                used -= esize(victim.h)
            if used + need <= self.max:
                break
            self.table.pop(0)
            self.evicted += 1
        if need > self.max:
            return
        self.inserted += 1
        if victim is None:
            self.table.append(e)
            return
        for i, x in enumerate(self.table):
            if x is victim:
                self.table[i] = e
                return
        self.table.insert(0, e)

    def block(self, data, start=True, end=True):
        """Decodes one block; returns the emitted (name, value) list."""
        self.b, self.p = data, 0
        out = []
        if start:
            self.kinds = []
            for e in self.table:
                e.emitted = False
        while self.p < len(self.b):
            self.byte = self.next()
            if self.byte & 0x80:
                e = self.entry(self.get_int(7))
                if e.ref:
                    e.ref = e.emitted = False
                    self.kinds.append("remove")
                else:
                    e.ref = e.emitted = True
                    out.append(e.h)
                    self.kinds.append("indexed")
                continue
            if self.byte & 0xe0 == 0x60:
                mode, pre = "literal", 5
            elif self.byte & 0xe0 == 0x40:
                mode, pre = "incremental", 5
            else:
                mode, pre = "substitution", 6
            self.kinds.append(mode)
            ni = self.get_int(pre)
            name = self.get_str() if ni == 0 else self.entry(ni - 1).h[0]
            si = None
            if mode == "substitution":
                si = self.get_int(0)
                self.entry(si)
            value = self.get_str()
            out.append((name, value))
            if mode == "incremental":
                self.insert(Entry((name, value), True, True))
            elif mode == "substitution":
                self.insert(Entry((name, value), True, True), si)
        if end:
            for e in self.table:
                if e.ref and not e.emitted:
                    out.append(e.h)
        return out


def frame(block):
    return bytes([len(block) >> 8, len(block) & 255, 0, 0, 0, 0, 0, 0]) + block


def split_frame(wire):
    if len(wire) < 8:
        raise WireError("frame shorter than its header")
    n = wire[0] * 256 + wire[1]
    if n != len(wire) - 8:
        raise WireError("frame length field %d, %d bytes follow" % (n, len(wire) - 8))
    if any(wire[2:8]):
        raise WireError("frame type/flags/stream are %r" % wire[2:8])
    return wire[8:]
