"""Bit strings for the reference readers and writers."""
from .http2draft import WireError


class Reader(object):
    def __init__(self, data):
        self.bits = "".join(format(b, "08b") for b in data)
        self.pos = 0

    def left(self):
        return len(self.bits) - self.pos

    def int_(self, n):
        if n > self.left():
            raise WireError("%d bits wanted, %d left" % (n, self.left()))
        self.pos += n
        return int(self.bits[self.pos - n:self.pos] or "0", 2)

    def align(self):
        pad = -self.pos % 8
        if "1" in self.bits[self.pos:self.pos + pad]:
            raise WireError("padding bits are not zero")
        self.pos += pad


class Writer(object):
    def __init__(self):
        self.bits = ""

    def int_(self, v, n):
        assert 0 <= v < 1 << n
        self.bits += format(v, "0%db" % n)

    def align(self):
        self.bits += "0" * (-len(self.bits) % 8)

    def bytes(self):
        self.align()
        return bytes(int(self.bits[i:i + 8], 2) for i in range(0, len(self.bits), 8))


class Book(object):
    """Code words of the symbols 0..255 and the end marker 256."""

    def __init__(self, words):
        self.words = words
        self.rev = {w: i for i, w in enumerate(words)}

    def problem(self):
        if len(self.words) != 257 or len(self.rev) != 257 or "" in self.rev:
            return "code words are missing or not distinct"
        longest = max(map(len, self.words))
        for w in self.words:
            for i in range(1, len(w)):
                if w[:i] in self.rev:
                    return "a code word is a prefix of another"
        if sum(1 << (longest - len(w)) for w in self.words) != 1 << longest:
            return "the code is not complete"

    def read(self, r):
        out = []
        w = ""
        while True:
            w += "1" if r.int_(1) else "0"
            s = self.rev.get(w)
            if s is not None:
                if s == 256:
                    return "".join(map(chr, out))
                out.append(s)
                w = ""

    def write(self, w, text):
        for c in text:
            w.bits += self.words[ord(c)]
        w.bits += self.words[256]
