"""Operations on the Python 3 side of /repo (run under /opt/venv)."""
import contextlib
import copy
import importlib
import io
import os
import shutil
import sys
import tempfile
import types
import zlib

from common import op, short_tb


def l1(b):
    return b.decode("latin-1") if isinstance(b, (bytes, bytearray)) else b


# ------------------------------------------------------------------ harness

@op
def har2hdrs(har):
    from lib import harfile
    req, res = harfile.har2hdrs(har)
    return [req, res]


@op
def read_har(text, utf8=True):
    from lib import harfile
    d = tempfile.mkdtemp(prefix="vfhar")
    try:
        path = os.path.join(d, "x.har")
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err):
                req, res = harfile.read_har_file(path)
            return {"req": req, "res": res, "stderr": err.getvalue()}
        except SystemExit as e:
            return {"exit": e.code, "stderr": err.getvalue(), "path": path}
    finally:
        shutil.rmtree(d)


_psl = []


def psl():
    if not _psl:
        from publicsuffix import PublicSuffixList
        _psl.append(PublicSuffixList())
    return _psl[0]


@op
def suffixes(hosts):
    return [psl().get_public_suffix(h) for h in hosts]


@op
def streamify(kind, messages, procs):
    mod = importlib.import_module("lib.streamifiers." + kind)
    msgs = [tuple(m) for m in messages]
    s = _streamifiers.get((kind, tuple(procs)))
    if s is None:
        s = _streamifiers[(kind, tuple(procs))] = mod.Streamifier(list(procs))
    streams = s.streamify(msgs)
    ids = {}
    for i, (a, b) in enumerate(msgs):
        ids[id(a)] = ["req", i]
        ids[id(b)] = ["res", i]
    return [{"name": st.name, "type": st.msg_type, "procs": list(st.procs),
             "messages": [[dict(h), host, ids.get(id(h))] for (h, host) in st.messages]}
            for st in streams]


_streamifiers = {}


@op
def filter_headers(hdrs):
    from lib.processors import Processors
    out = Processors.filter_headers(hdrs)
    return [out, hdrs, out is hdrs]


@op
def compare_headers(a, an, b, bn):
    from lib.processors import Processors
    res = Processors.compare_headers(a, an, b, bn)
    return [res, a, b]


@op
def stream_program(procs, streams, baseline, adds):
    """Builds streams, records results, combines them and reports everything."""
    from lib.stream import Stream
    objs = []
    for s in streams:
        st = Stream(s["name"], [({"i": str(i)}, "h") for i in s["messages"]], s["type"], list(procs))
        for rec in s["results"]:
            for name, size, ratio, t in rec:
                st.record_result(name, size, ratio, t)
        objs.append(st)

    def dump(st):
        out = []
        st.print_header(out.append)
        head = "".join(out)
        out = []
        st.print_summary(out.append, baseline)
        summ = "".join(out)
        out = []
        st.print_tsv_header(out.append)
        n = st.print_tsv(out.append)
        out2 = []
        n2 = st.print_tsv(out2.append, 41)
        return {"header": head, "summary": summ, "tsv": "".join(out), "n": n,
                "tsv41": "".join(out2), "n41": n2,
                "sizes": dict(st.sizes), "ratios": dict(st.ratios), "times": dict(st.times),
                "messages": [m[0]["i"] for m in st.messages], "name": st.name, "type": st.msg_type}

    before = [dump(o) for o in objs]
    totals = []
    import operator
    from functools import reduce
    for how, idxs in adds:
        sel = [objs[i] for i in idxs]
        if how == "sum":
            tot = sum(sel)
        elif how == "nest":
            tot = reduce(lambda a, b: b + a, reversed(sel))
        else:
            tot = reduce(operator.add, sel)
        tot_dump = dump(tot)
        tot_dump["same"] = any(tot is s for s in sel)
        totals.append(tot_dump)
    after = [dump(o) for o in objs]
    return {"before": before, "totals": totals, "after": after}


@op
def meanstdv(xs):
    from lib.stream import meanstdv
    return list(meanstdv(xs))


@op
def run_tester(hars, argv, stubs, prefix_name):
    """Runs the whole comparison with stub codecs whose behaviour is scripted.

    stubs: {name: {"behaviour": [..per message index..], "sizes": [...]}}"""
    import compressor
    from compressor import BaseProcessor
    import compare_compressors
    log = []
    inst = [0]

    def make(name, spec):
        mod = types.ModuleType("compressor." + name)

        class Processor(BaseProcessor):
            def __init__(self, options, is_request, params):
                BaseProcessor.__init__(self, options, is_request, params)
                inst[0] += 1
                self.n = 0
                self.inst = inst[0]
                log.append(["new", name, self.inst, bool(is_request), list(params)])

            def compress(self, hdrs, host):
                log.append(["compress", name, self.inst, dict(hdrs), host])
                self.last = dict(hdrs)
                self.n += 1
                size = spec["sizes"][(self.n - 1) % len(spec["sizes"])]
                self.blob = bytes([self.n % 256]) * size
                return self.blob

            def decompress(self, blob):
                if spec["behaviour"] == ["notimpl"]:
                    raise NotImplementedError
                log.append(["decompress", name, self.inst, blob == self.blob])
                return mutate(self.last, spec["behaviour"][(self.n - 1) % len(spec["behaviour"])])

            def done(self):
                log.append(["done", name, self.inst])
                if spec.get("done_raises"):
                    raise RuntimeError("done")

        Processor.__module__ = "compressor." + name
        mod.Processor = Processor
        return mod

    d = tempfile.mkdtemp(prefix="vfrun")
    out = []
    saved_argv = sys.argv
    err = io.StringIO()
    res = {}
    try:
        files = []
        for i, har in enumerate(hars):
            import json
            p = os.path.join(d, "%d.har" % i)
            with open(p, "w") as f:
                json.dump(har, f)
            files.append(p)
        for name, spec in stubs.items():
            sys.modules["compressor." + name] = make(name, spec)
        sys.argv = ["compare_compressors.py"] + list(argv) + ["--prefix", os.path.join(d, prefix_name)] + files
        try:
            with contextlib.redirect_stderr(err):
                compare_compressors.CompressionTester(out.append)
            res["exit"] = None
        except SystemExit as e:
            res["exit"] = e.code
        res["out"] = "".join(out)
        res["stderr"] = err.getvalue()
        res["log"] = log
        for t in ("req", "res"):
            p = os.path.join(d, prefix_name + t + ".tsv")
            if os.path.exists(p):
                with open(p) as f:
                    res[t] = f.read()
        return res
    finally:
        sys.argv = saved_argv
        for name in stubs:
            sys.modules.pop("compressor." + name, None)
        shutil.rmtree(d)


def mutate(h, how):
    """Scripted decompression faults."""
    h = dict(h)
    kind, arg = how[0], how[1:]
    if kind == "ok":
        return h
    if kind == "set":
        h[arg[0]] = arg[1]
        return h
    if kind == "drop":
        h.pop(arg[0], None)
        return h
    if kind == "append":
        h[arg[0]] = h.get(arg[0], "") + arg[1]
        return h
    if kind == "reverse":
        k, sep = arg
        if k in h:
            h[k] = sep.join(reversed(h[k].split(sep)))
        return h
    raise ValueError(kind)


# ------------------------------------------------------------------ codecs

class Opts(object):
    verbose = 0
    debug = False


def processor(name, is_request, params):
    return importlib.import_module("compressor." + name).Processor(Opts(), is_request, list(params))


@op
def codec_history(name, is_request, params, msgs, host="h"):
    """Compress with one instance, decompress with another; both orders of
    instances live at once."""
    enc = processor(name, is_request, params)
    dec = processor(name, is_request, params)
    out = []
    for m in msgs:
        c = enc.compress(dict(m), host)
        item = {"wire": l1(c), "bytes": isinstance(c, (bytes, bytearray))}
        try:
            d = dec.decompress(c)
            item["dec"] = [[l1(k), l1(v)] for k, v in (d.items() if isinstance(d, dict) else d)]
        except NotImplementedError:
            item["dec"] = None
        out.append(item)
    return out


def spoil(h):
    """What its owner may do with a header set that was used."""
    if isinstance(h, dict):
        for k in list(h):
            h[k] = "spoilt"
        h["x-spoilt"] = "yes"
    elif isinstance(h, list):
        del h[:]


@op
def codec_pristine(specs, order):
    """codec_mix in code that was imported for this very run."""
    mine = lambda n: n.split(".")[0] in ("compressor", "lib")
    saved = dict((n, m) for n, m in sys.modules.items() if mine(n))
    for n in saved:
        del sys.modules[n]
    try:
        return codec_mix(specs, order)
    finally:
        for n in [n for n in sys.modules if mine(n)]:
            del sys.modules[n]
        sys.modules.update(saved)


@op
def codec_mix(specs, order):
    """Several instances, each with its own history, advanced in the given order."""
    live = {}
    out = [[] for _ in specs]
    for i in order:
        s = specs[i]
        if i not in live:
            enc = processor(s["name"], s["is_request"], s["params"])
            live[i] = enc, (enc if s["shared"] else processor(s["name"], s["is_request"], s["params"]))
        enc, dec = live[i]
        n = len(out[i])
        h = dict((k, v) for k, v in s["msgs"][n])
        item = {"mutated": False}
        out[i].append(item)
        try:
            c = enc.compress(h, s["hosts"][n] if s["hosts"] else "h")
        except Exception:
            item["enc_exc"] = short_tb()
            return out
        item["mutated"] = h != dict((k, v) for k, v in s["msgs"][n])
        item["wire"] = l1(c)
        if s.get("spoil"):
            spoil(h)
        try:
            d = dec.decompress(c)
            item["dec"] = sorted([l1(k), l1(v)] for k, v in (d.items() if isinstance(d, dict) else d))
            if s.get("spoil"):
                spoil(d)
        except NotImplementedError:
            item["dec"] = None
        except Exception:
            item["dec_exc"] = short_tb()
            return out
    return out


@op
def format_parse(frame, is_request):
    import compressor
    txt = compressor.format_http1(dict(frame))
    return {"text": txt, "parsed": compressor.parse_http1(txt, is_request)}


@op
def parse_text(text, is_request):
    import compressor
    return compressor.parse_http1(text, is_request)


@op
def fork_history(script, params, msgs, cwd):
    old = os.getcwd()
    os.chdir(cwd)
    try:
        p = processor("fork", True, [script] + list(params))
        try:
            out = []
            for m in msgs:
                c = p.compress(dict(m), "h")
                out.append(l1(c))
            return out
        finally:
            proc = p.process
            proc.kill()
            proc.wait()
            proc.stdin.close()
            proc.stdout.close()
    finally:
        os.chdir(old)


@op
def codec_plain(name, is_request, params, msgs, hosts=None):
    """What new instances make of a history: frames and header sets."""
    enc, dec = processor(name, is_request, params), processor(name, is_request, params)
    out = {"wires": [], "dec": [], "bytes": False}
    for m in msgs:
        c = enc.compress(dict(map(tuple, m)), "h")
        out["bytes"] = not isinstance(c, str)
        out["wires"].append(l1(c))
        out["dec"].append(sorted([l1(k), l1(v)] for k, v in dict(dec.decompress(c)).items()))
    return out


@op
def codec_feed(name, is_request, params, frames, as_bytes=False):
    """One instance given frames, on after an exception: how each ended."""
    dec = processor(name, is_request, params)
    out = []
    for f in frames:
        try:
            d = dec.decompress(f.encode("latin-1") if as_bytes else f)
        except Exception:
            out.append("error")
            continue
        good = isinstance(d, dict) and all(isinstance(x, str) for kv in d.items() for x in kv)
        out.append("headers" if good else repr(d)[:300])
    return out
