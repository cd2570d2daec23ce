"""Independent reader/writer of the header-diff draft (draft-ruellan-headerdiff):
indexed, literal and delta representations, three indexing modes."""
import zlib
from .http2draft import WireError, enc_int

REQ = ("accept accept-charset accept-encoding accept-language cookie :method host if-modified-since keep-alive :host :scheme "
       ":path user-agent :version proxy-connection referer accept-datetime authorization allow cache-control connection "
       "content-length content-md5 content-type date expect from if-match if-none-match if-range if-unmodified-since "
       "max-forwards pragma proxy-authorization range te upgrade via warning").split()
RES = ("age cache-control content-length content-type date etag expires last-modified server set-cookie :status vary :version "
       "via :status-text access-control-allow-origin accept-ranges allow connection content-disposition content-encoding "
       "content-language content-location content-md5 content-range link location p3p pragma proxy-authenticate refresh "
       "retry-after strict-transport-security trailer transfer-encoding warning www-authenticate").split()


class Book(object):
    """A static code book, learnt from the encodings of single symbols: the
    encoding of c repeated eight times is exactly len(code(c)) bytes longer than
    that of the empty string."""

    def __init__(self, empty, eights):
        self.words = {}
        for c, e in eights.items():
            n = len(e) - len(empty)
            bits = "".join("%d%d%d%d%d%d%d%d" % tuple((x >> (7 - i)) & 1 for i in range(8)) for x in e)
            self.words[c] = bits[:n]
        bits = "".join(format(x, "08b") for x in empty)
        kraft = sum(1 << (256 - len(w)) for w in self.words.values())
        rest = (1 << 256) - kraft
        if rest <= 0 or rest & (rest - 1):
            self.eos = None
        else:
            n = 256 - (rest.bit_length() - 1)
            self.eos = bits[:n] if n <= len(bits) and "1" not in bits[n:] else None
        self.rev = {w: c for c, w in self.words.items()}
        if self.eos is not None:
            self.rev[self.eos] = None

    def complete(self):
        return self.eos is not None and len(self.rev) == len(self.words) + 1 and not any(
            w[:i] in self.rev for w in self.rev for i in range(len(w)))

    def encode(self, data):
        bits = "".join(self.words[c] for c in data) + self.eos
        bits += "0" * (-len(bits) % 8)
        return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))

    def decode(self, data, pos):
        out = bytearray()
        w = ""
        while True:
            if pos >= len(data):
                raise WireError("Huffman string runs past the end")
            for i in range(8):
                w += "1" if data[pos] & (0x80 >> i) else "0"
                if w in self.rev:
                    c = self.rev[w]
                    if c is None:
                        return bytes(out), pos + 1
                    out.append(c)
                    w = ""
            pos += 1


class Decoder(object):
    def __init__(self, is_request, bound, book=None, window=None, dictionary=b""):
        self.names = list(REQ if is_request else RES)
        self.table = []
        self.uses = []
        self.bound = bound
        self.book = book
        self.inflater = None
        if window is not None:
            self.inflater = zlib.decompressobj()
            self.dictionary = dictionary
        self.primed = False
        self.kinds = {}
        self.deltas = []        # (reference value, prefix length, value, uses before) of this block

    def size(self):
        return sum(len(v) for _, v in self.table)

    def int_(self, first, bits):
        limit = (1 << bits) - 1
        v = first & limit
        if v < limit:
            return v
        shift = 0
        while True:
            b = self.byte()
            v += (b & 0x7f) << shift
            shift += 7
            if not b & 0x80:
                return v
            if shift > 70:
                raise WireError("integer does not end")

    def byte(self):
        if self.pos >= len(self.data):
            raise WireError("block ends early")
        self.pos += 1
        return self.data[self.pos - 1]

    def string(self):
        if self.book:
            s, self.pos = self.book.decode(self.data, self.pos)
            return s.decode("latin-1")
        n = self.int_(0, 0)
        if self.pos + n > len(self.data):
            raise WireError("string runs past the end")
        self.pos += n
        return self.data[self.pos - n:self.pos].decode("latin-1")

    def entry(self, i):
        if i >= len(self.table):
            raise WireError("index %d of %d" % (i, len(self.table)))
        return self.table[i]

    def frame(self, f):
        if len(f) < 8:
            raise WireError("frame header is %d bytes" % len(f))
        if int.from_bytes(f[:2], "big") != len(f) - 8:
            raise WireError("frame length %d, payload %d" % (int.from_bytes(f[:2], "big"), len(f) - 8))
        if f[2:8] != bytes(6):
            raise WireError("frame header %r" % f[:8])
        data = f[8:]
        if self.inflater:
            data = self.inflater.decompress(data)
        return self.block(data)

    def block(self, data):
        self.data, self.pos = data, 0
        self.deltas = []
        out = []
        n = self.byte()
        for _ in range(n):
            out.append(self.one())
            if self.size() > self.bound:
                raise WireError("table holds %d bytes, bound %d" % (self.size(), self.bound))
        if self.pos != len(data):
            raise WireError("%d bytes after the last header" % (len(data) - self.pos))
        return out

    def one(self):
        b = self.byte()
        if b & 0x80:
            i = b & 0x3f
            if b & 0x40:
                i = ((b & 0x3f) << 8 | self.byte()) + 64
            self.note("indexed-long" if b & 0x40 else "indexed")
            return self.entry(i)
        mode = (b >> 4) & 3 if b & 0x20 else 0      # without indexing the bit below is prefix
        bits = 4 if mode else 5
        ref = None
        delta = bool(b & 0x40)
        if delta:
            ref = self.int_(b, bits)
            name = self.entry(ref)[0]
            plen = self.int_(0, 0)
            base = self.entry(ref)[1]
            if plen > len(base):
                raise WireError("prefix of %d of a value of %d" % (plen, len(base)))
        else:
            i = self.int_(b, bits)
            if i == 0:
                name = self.string()
                self.names.append(name)
            elif i > len(self.names):
                raise WireError("name index %d of %d" % (i, len(self.names)))
            else:
                name = self.names[i - 1]
            if mode == 3:
                ref = self.int_(0, 0)
                self.entry(ref)
        value = self.string()
        if delta:
            value = base[:plen] + value
            self.deltas.append((base, plen, value, self.uses[ref]))
            self.uses[ref] += 1
        if mode == 3:
            self.table[ref] = (name, value)
            self.uses[ref] = 0
        elif mode == 2:
            self.table.append((name, value))
            self.uses.append(0)
        self.note(("delta" if delta else "literal") + {0: "", 2: "-incremental", 3: "-substitution"}[mode])
        return (name, value)

    def note(self, k):
        self.kinds[k] = self.kinds.get(k, 0) + 1


def enc_string(s, book=None):
    s = s.encode("latin-1")
    return book.encode(s) if book else enc_int(len(s), 0) + s


def frame(data):
    return len(data).to_bytes(2, "big") + bytes(6) + data
