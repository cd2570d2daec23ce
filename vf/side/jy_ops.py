"""Operations on the Python 2 code of /repo (run under Jython)."""
import sys
import types

from common import op


def b(s):
    """JSON text -> byte string."""
    if isinstance(s, unicode):
        return s.encode("latin-1")
    return s


def u(s):
    if s is None:
        return None
    if isinstance(s, unicode):
        return s
    return s.decode("latin-1")


class Opts(object):
    verbose = 0
    debug = False


def shim_bitarray():
    """A minimal stand-in for the bitarray extension (not available under
    Jython), enough for the seven-bit packing of the simple codec."""
    if "bitarray" in sys.modules:
        return
    m = types.ModuleType("bitarray")

    class bitarray(list):
        def fromstring(self, s):
            self.frombytes(s)

        def frombytes(self, s):
            for c in s:
                o = ord(c)
                self.extend((o >> (7 - i)) & 1 for i in range(8))

        def tobytes(self):
            out = []
            bits = list(self)
            bits += [0] * (-len(bits) % 8)
            for i in range(0, len(bits), 8):
                v = 0
                for x in bits[i:i + 8]:
                    v = v * 2 + x
                out.append(chr(v))
            return "".join(out)
        tostring = tobytes

        def __getslice__(self, i, j):
            return bitarray(list.__getslice__(self, i, j))
    m.bitarray = bitarray
    sys.modules["bitarray"] = m


_mods = {}


def module(name):
    if name not in _mods:
        if name == "simple":
            shim_bitarray()
        pkg = __import__("compressor." + name)
        _mods[name] = getattr(pkg, name)
    return _mods[name]


def processor(name, is_request, params):
    return module(name).Processor(Opts(), is_request, [b(p) for p in params])


def dec_out(d):
    items = d.items() if isinstance(d, dict) else list(d)
    return [[u(k), u(v)] for k, v in items]


@op
def codec_history(name, is_request, params, msgs, hosts=None, decode=True, shared=False):
    """msgs: lists of [name, value]. One instance compresses, another
    decompresses; the first failure ends the history."""
    enc = processor(name, is_request, params)
    dec = enc if shared else processor(name, is_request, params)
    out = []
    from common import short_tb
    for i, m in enumerate(msgs):
        h = dict((b(k), b(v)) for k, v in m)
        host = b(hosts[i]) if hosts else "h"
        item = {}
        out.append(item)
        try:
            given = dict(h)
            c = enc.compress(h, host)
            if h != given:
                item["mutated"] = True
            item["wire"] = u(c)
        except Exception:
            item["enc_exc"] = short_tb()
            break
        if decode:
            try:
                item["dec"] = dec_out(dec.decompress(c))
            except Exception:
                item["dec_exc"] = short_tb()
                break
    return out


def spoil(h):
    """What its owner may do with a header set that was used."""
    if isinstance(h, dict):
        for k in list(h):
            h[k] = "spoilt"
        h["x-spoilt"] = "yes"
    elif isinstance(h, list):
        del h[:]


@op
def codec_pristine(specs, order):
    """codec_mix in code that was imported for this very run."""
    mine = lambda n: n.split(".")[0] in ("compressor", "lib")
    saved = dict((n, m) for n, m in sys.modules.items() if mine(n))
    mods = dict(_mods)
    _mods.clear()
    for n in saved:
        del sys.modules[n]
    try:
        return codec_mix(specs, order)
    finally:
        for n in [n for n in sys.modules if mine(n)]:
            del sys.modules[n]
        sys.modules.update(saved)
        _mods.clear()
        _mods.update(mods)


@op
def codec_mix(specs, order):
    """Several instances, each with its own history, advanced in the given order."""
    from common import short_tb
    live = {}
    out = [[] for _ in specs]
    for i in order:
        s = specs[i]
        if i not in live:
            enc = processor(s["name"], s["is_request"], s["params"])
            live[i] = enc, (enc if s["shared"] else processor(s["name"], s["is_request"], s["params"]))
        enc, dec = live[i]
        n = len(out[i])
        h = dict((b(k), b(v)) for k, v in s["msgs"][n])
        given = dict(h)
        item = {"mutated": False}
        out[i].append(item)
        try:
            c = enc.compress(h, b(s["hosts"][n]) if s["hosts"] else "h")
        except Exception:
            item["enc_exc"] = short_tb()
            return out
        item["mutated"] = h != given
        item["wire"] = u(c)
        if s.get("spoil"):
            spoil(h)
        try:
            d = dec.decompress(c)
            item["dec"] = sorted(dec_out(d))
            if s.get("spoil"):
                spoil(d)
        except NotImplementedError:
            item["dec"] = None
        except Exception:
            item["dec_exc"] = short_tb()
            return out
    return out


@op
def codec_decode(name, is_request, params, frames):
    """Decompress given frames with one instance."""
    from common import short_tb
    dec = processor(name, is_request, params)
    out = []
    for f in frames:
        try:
            out.append({"dec": dec_out(dec.decompress(b(f)))})
        except Exception:
            out.append({"dec_exc": short_tb()})
            break
    return out


@op
def hd_book(which):
    """Encodings of nothing, and of every byte eight times."""
    m = __import__("compressor.headerdiff.Huffman")
    codec = getattr(m.headerdiff.Huffman, which + "_codec")
    return [u(codec.encode(""))] + [u(codec.encode(chr(c) * 8)) for c in range(256)]


@op
def hd_huffman(which, stats, texts):
    """which: request / response / custom (a codec over the given stats)."""
    m = __import__("compressor.headerdiff.Huffman").headerdiff.Huffman
    if which == "custom":
        codec = m.HuffmanCodec(dict((int(k), v) for k, v in stats))
    else:
        codec = getattr(m, which + "_codec")
        stats = [[k, v] for k, v in getattr(m, which + "_stats", {}).items()]
    syms = [int(k) for k, v in stats if int(k) < 256]
    out = {"stats": stats, "empty": u(codec.encode("")), "eights": dict((str(c), u(codec.encode(chr(c) * 8))) for c in syms),
           "texts": []}
    for t, junk in texts:
        e = codec.encode(b(t))
        d, n = codec.decode(e + b(junk))
        out["texts"].append([u(e), u(d), n])
    return out


@op
def delta_book(name, is_request):
    """Code words of the 257 symbols of a codec's Huffman coder."""
    pkg = module(name)
    huffman = __import__("compressor.%s.huffman" % name)
    h = getattr(huffman, name).huffman
    tables = pkg.header_freq_tables
    coder = h.Huffman(tables.request_freq_table if is_request else tables.response_freq_table)
    out = []
    for c in range(257):
        data, n = coder.Encode([c], False) if c < 256 else coder.Encode([], True)
        out.append("".join("{0:08b}".format(x) for x in data)[:n])
    return out


@op
def seven(text):
    module("simple")
    m = __import__("compressor.simple.seven").simple.seven
    e = m.encode(b(text))
    return [u(e), u(m.decode(e))]


@op
def codec_plain(name, is_request, params, msgs, hosts=None):
    """What new instances make of a history: frames and header sets."""
    r = codec_history(name, is_request, params, msgs, hosts)
    return {"wires": [x["wire"] for x in r if "wire" in x], "dec": [sorted(x["dec"]) if "dec" in x else None for x in r], "bytes": False}


@op
def codec_feed(name, is_request, params, frames, as_bytes=False):
    """One instance given frames, on after an exception: how each ended."""
    dec = processor(name, is_request, params)
    out = []
    for f in frames:
        try:
            d = dec.decompress(b(f))
        except Exception:
            out.append("error")
            continue
        good = isinstance(d, dict) and all(isinstance(x, str) for kv in d.items() for x in kv)
        out.append("headers" if good else repr(d)[:300])
    return out
