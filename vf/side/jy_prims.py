"""Primitives of the Python 2 codecs: bit buckets, Huffman coders, packing,
LRU storage, identifier stores, letter counters."""
from common import op, short_tb
from jy_ops import module, b, u

_sub = {}


def sub(pkg, name):
    """compressor.<pkg>.<name>"""
    if (pkg, name) not in _sub:
        module(pkg)
        m = __import__("compressor.%s.%s" % (pkg, name))
        _sub[(pkg, name)] = getattr(getattr(m, pkg), name)
    return _sub[(pkg, name)]


@op
def bucket(copy, program):
    """Run a program on a bit bucket. Each step is [method, args..]; each
    reply is ["v", value] or ["e", exception name]."""
    bb = sub(copy, "bit_bucket").BitBucket()
    out = []
    for step in program:
        name, args = step[0], step[1:]
        if name == "StoreBits":
            args = [(list(args[0]), args[1])]
        try:
            r = getattr(bb, name)(*args)
            if isinstance(r, tuple):
                r = [list(r[0]), r[1]]
            out.append(["v", r])
        except Exception:
            out.append(["e", short_tb()["exc"]])
    return out


@op
def huffman(copy, table, texts, perm=None):
    """table: list of frequencies, symbol = index, or "request"/"response".
    texts: [[symbols, with eof, lead bits, tail bits]..]. perm: order the table
    is given in."""
    h = sub(copy, "huffman")
    if table in ("request", "response"):
        t = getattr(sub(copy, "header_freq_tables"), table + "_freq_table")
        t = list(t)
    else:
        t = [((chr(i) if i < 256 else i), f) for i, f in enumerate(table)]
        if perm:
            t = [t[i] for i in perm]
    coder = h.Huffman(t)
    n = len(t)
    bb = sub(copy, "bit_bucket").BitBucket
    words = []
    for c in range(n):
        if c < 256:
            data, bits = coder.Encode([c], False)
        else:
            data, bits = coder.Encode([], True)
        words.append("".join("{0:08b}".format(x) for x in data)[:bits])
    out = {"words": words, "texts": [],
           "freqs": [[s if isinstance(s, int) else ord(s), f] for s, f in t]}
    for syms, eof, lead, tail in texts:
        x = bb()
        for bit in lead:
            x.StoreBit(bit)
        coder.EncodeToBB(x, list(syms), eof)
        total = x.NumBits()
        data, nbits = coder.Encode(list(syms), eof)
        item = {"bits": total, "enc": list(data), "n": nbits,
                "all": "".join("{0:08b}".format(v) for v in x.GetAllBits()[0])[:total]}
        for bit in tail:
            x.StoreBit(bit)
        if lead:
            x.GetBits(len(lead))
        item["dec"] = coder.DecodeFromBB(x, eof, 0 if eof else total - len(lead))
        item["rest"] = []
        for bit in tail:
            item["rest"].append(x.GetBits(1)[0][0] >> 7)
        item["left"] = x.AllConsumed()
        if hasattr(coder, "Decode") and data:
            item["dec2"] = coder.Decode(list(data), eof, nbits)
        out["texts"].append(item)
    return out


@op
def packing(copy, which, lead, fields, tail):
    """Pack the fields after the lead bits, add the tail, unpack again.
    A field is [kind, param, value]."""
    impl = sub(copy, "spdy4_codec_impl")
    tables = sub(copy, "header_freq_tables")
    key = (copy, which)
    if key not in _coders:
        _coders[key] = sub(copy, "huffman").Huffman(getattr(tables, which + "_freq_table"))
    huff = _coders[key]
    bb = sub(copy, "bit_bucket").BitBucket()
    for x in lead:
        bb.StoreBit(x)
    ends = []
    for kind, param, val in fields:
        if kind == "int":
            impl.PackInt(bb, param, val, None)
        elif kind == "int8":
            impl.PackInt8(bb, 8, val, None)
        elif kind == "int16":
            impl.PackInt16(bb, 16, val, None)
        elif kind == "var":
            impl.PackVarInt(bb, 0, val, None)
        else:
            impl.PackStr(bb, tuple(param), b(val), huff)
        ends.append(bb.NumBits())
    for x in tail:
        bb.StoreBit(x)
    total = bb.NumBits()
    all_bits = "".join("{0:08b}".format(v) for v in bb.GetAllBits()[0])[:total]
    out = []
    if lead:
        bb.GetBits(len(lead))
    for (kind, param, val), end in zip(fields, ends):
        if kind == "int":
            v = impl.UnpackInt(bb, param, None)
        elif kind == "int8":
            v = impl.UnpackInt8(bb, 8, None)
        elif kind == "int16":
            v = impl.UnpackInt16(bb, 16, None)
        elif kind == "var":
            v = impl.UnpackVarInt(bb, 0, None)
        else:
            v = u(impl.UnpackStr(bb, tuple(param), huff))
        out.append([v, total - bb.BitsRemaining()])
    return {"bits": all_bits, "ends": ends, "out": out}


_coders = {}


@op
def lru(copy, limits, program):
    """limits: [max bytes, max items, max seq num, offset]. Steps:
    ["insert", k, v], ["store", k, v], ["share", i, v] (a new entry that shares
    the key of the i-th held one), ["pop"], and after each a full look-around."""
    m = sub(copy, "lrustorage")
    s = m.LruStorage(*limits)
    new = copy == "delta2"
    out = []

    def key(e):
        return u(e.key() if new else e.key)

    def val(e):
        return u(e.val() if new else e.val)

    def insert(kv):
        if new:
            ok = s.Reserve(kv, 1)
        else:
            ok = s.Reserve(kv.ByteSize(), 1)
        if ok:
            s.Store(kv)
            return 1
        if new:
            kv.done()
        return 0

    probes = []
    for step in program:
        name = step[0]
        r = None
        if name == "insert":
            probes.append((b(step[1]), b(step[2])))
            r = insert(m.KV(b(step[1]), b(step[2])))
        elif name == "store":
            probes.append((b(step[1]), b(step[2])))
            try:
                s.Store(m.KV(b(step[1]), b(step[2])))
                r = 1
            except MemoryError:
                r = 0
        elif name == "share":
            if len(s) and new:
                e = s.ring[step[1] % len(s)]
                probes.append((e.key(), b(step[2])))
                r = [step[1] % len(s), insert(m.KV(e.key_, b(step[2])))]
        elif name == "pop":
            try:
                r = 1 if s.PopOne() else 0
            except IndexError:      # delta2_bohe's way of saying that there is none
                if len(s):
                    raise
                r = 0
        held = [[e.seq_num, key(e), val(e)] for e in s.ring]
        found = []
        for k, v in probes[-12:]:
            a, c = s.FindKeyValEntries(k, v)
            if not new:
                a = a and a.seq_num
                c = c and c.seq_num
            found.append([u(k), u(v), a, c])
        looked = []
        for seq, _, _ in held:
            e = s.Lookup(seq)
            looked.append([key(e), val(e)])
        out.append({"r": r, "held": held, "found": found, "looked": looked, "bytes": s.byte_size, "n": len(s)})
    return out


@op
def delta_storage(limits, program):
    """The delta codec's storage: ["insert", k, v], ["touch", k, v]."""
    impl = sub("delta", "spdy4_codec_impl")
    s = impl.Storage(*limits)
    gone = []
    s.SetRemoveValCB(lambda ve: gone.append([u(ve.key()), u(ve.val())]))
    out = []
    probes = []
    for name, k, v in program:
        k, v = b(k), b(v)
        probes.append((k, v))
        del gone[:]
        r = None
        ke = s.FindKeyEntry(k)
        ve = s.FindValEntry(ke, v)
        if name == "insert":
            n = s.InsertVal(k, v)
            if n is not None:
                s.AddToHeadOfLRU(n)
            r = n is not None
        elif ve is not None:
            s.MoveToHeadOfLRU(ve)
            r = True
        found = []
        for pk, pv in probes[-12:]:
            e = s.FindValEntry(s.FindKeyEntry(pk), pv)
            if e is None:
                found.append([u(pk), u(pv), None, None])
            else:
                x = s.LookupFromIdx(e.lru_idx)
                found.append([u(pk), u(pv), e.lru_idx, [u(x.key()), u(x.val())]])
        out.append({"r": r, "gone": list(gone), "found": found, "bytes": s.state_size, "n": s.num_vals})
    return out


@op
def ids(copy, maximum, minimum, program, search):
    """search: allocate through the storage's search for an unused number."""
    m = sub(copy, "common_utils")
    store = m.IDStore() if copy == "delta_bohe" else m.IDStore(maximum)
    if minimum:
        store.minimum_id = minimum
        store.next_idx = minimum - 1
    used = {}
    out = []
    for step in program:
        if step == "get":
            if search:
                try:
                    i = sub("delta", "spdy4_codec_impl").Storage.GetNextUnusedId(store, used)
                except StandardError:
                    out.append("full")
                    continue
                used[i] = 1
            else:
                i = store.GetNext()
            out.append(i)
        else:
            if search:
                if used:
                    k = sorted(used)[step % len(used)]
                    del used[k]
                    out.append(["free", k])
                else:
                    out.append(None)
            else:
                store.DoneWithId(step)
                out.append(None)
    return out


@op
def freak(copy, batches):
    """batches: lists of operations, each a list of [field, text]."""
    wf = sub(copy, "word_freak").WordFreak()
    for ops in batches:
        wf.LookAt([dict((str(k), b(v)) for k, v in o) for o in ops])
    def sym(c):
        return ord(c) if isinstance(c, str) else c
    h = sub(copy, "huffman").Huffman(eval(repr(wf)))
    word = lambda c: h.Encode([c], False)[1] if c < 256 else h.Encode([], True)[1]
    return {"freqs": list(wf.GetFrequencies()),
            "sorted": [[sym(c), f] for c, f in wf.SortedByFreq()],
            "printed": [[sym(c), f] for c, f in eval(str(wf))],
            "lengths": sorted([int(k), v] for k, v in wf.length_freaks.items()),
            "coded": [word(c) for c in range(257)]}


@op
def delta_defaults():
    return [[u(k), u(v)] for k, v in sub("delta", "spdy4_codec_impl").g_default_kvs]


@op
def bohe_values(copy, items, is_request):
    """[[key, value]..] -> encoded values"""
    m = sub(copy, "bohe")
    out = []
    for k, v in items:
        try:
            if copy == "delta2_bohe":
                r = m.encode(b(k), b(v), is_request)
            else:
                r = m.encode(b(k), b(v), "req" if is_request else "res")
            out.append(["v", u(r)])
        except Exception:
            out.append(["e", short_tb()])
    return out


class _Out(object):
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass


def printed(f, *args):
    """What f prints, plus the text it returns."""
    import sys
    old, sys.stdout = sys.stdout, _Out()
    try:
        r = f(*args)
        got = "".join(sys.stdout.parts)
    finally:
        sys.stdout = old
    return got + (r if isinstance(r, str) else "")


def plain_op(o):
    return dict((b(k), b(v) if not isinstance(v, (int, long)) else int(v)) for k, v in o.items())


@op
def dumps(copy, items):
    """Texts of the debugging helpers, one per item."""
    out = []
    for it in items:
        kind, x = it[0], it[1:]
        if kind == "bits":
            r = sub(copy, "common_utils").FormatAsBits((list(x[0]), x[1]))
        elif kind == "bucket":
            bb = sub(copy, "bit_bucket").BitBucket()
            for bit in x[0]:
                bb.StoreBit(bit)
            if x[1]:
                bb.GetBits(x[1])
            r = [repr(bb), printed(bb.DebugFormat)]
        elif kind == "readable":
            r = sub(copy, "common_utils").MakeReadableString(b(x[0]))
        elif kind == "table":
            h = sub(copy, "huffman")
            t = [((chr(i) if i < 256 else i), f) for i, f in enumerate(x[0])]
            coder = h.Huffman(t)
            words = []
            for c in range(len(t)):
                data, bits = coder.Encode([c], False) if c < 256 else coder.Encode([], True)
                words.append("".join("{0:08b}".format(v) for v in data)[:bits])
            r = [words, coder.FormatCodeTable()]
        elif kind == "op":
            r = sub(copy, "spdy4_codec_impl").FormatOp(plain_op(x[0]))
        elif kind == "ops":
            ops = x[0]
            ops = [plain_op(o) for o in ops] if isinstance(ops, list) else dict((b(k), [plain_op(o) for o in v]) for k, v in ops.items())
            f = sub(copy, "spdy4_codec_impl").FormatOps
            r = printed(f, ops, b(x[1])) if x[1] is not None else printed(f, ops)
        elif kind == "hex":
            r = sub(copy, "spdy4_codec_impl").FormatHex(list(x[0]))
        out.append(u(r) if isinstance(r, str) else [u(v) if isinstance(v, str) else v for v in r])
    return out


@op
def traced(is_request, params, msgs):
    """delta2, silent and tracing, message by message: the frame each emits,
    what the tracing one prints, and the operations the frame reads as."""
    from jy_ops import Opts
    m = module("delta2")

    class Tracing(Opts):
        verbose = 5
    a = m.Processor(Opts(), is_request, [b(p) for p in params])
    t = m.Processor(Tracing(), is_request, [b(p) for p in params])
    d = m.Processor(Opts(), is_request, [b(p) for p in params])
    out = []
    for msg in msgs:
        h = dict((b(k), b(v)) for k, v in msg)
        keep = []

        def go():
            keep.append(t.compress(h, "h"))
        quiet = []

        def still():
            quiet.append(a.compress(h, "h"))
        silence = printed(still)
        text = printed(go)
        group, ops = d.compressor.RealOpsToOps(keep[0])
        out.append({"silent": u(quiet[0]), "silence": u(silence), "traced": u(keep[0]), "text": u(text), "group": group,
                    "ops": [dict((u(k), u(v) if isinstance(v, str) else v) for k, v in o.items()) for o in ops]})
    return out
