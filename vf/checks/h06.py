"""H06: whole comparison runs with scripted codecs, against a reference run."""
import re

from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen
from . import h04, h05

RULE = ("whole runs over 1-3 generated HAR captures with 1-3 scripted codecs (sizes, parameters, decompression faults, no decompression), "
        "a baseline, a streamifier, verbosity and debug, and of runs with the shipped Python 3 codecs, whose sizes are compared with the codecs driven alone; non-trivial = at least two messages and one scripted fault or two streams of a direction")
ASSUMPTIONS = ["codec names are distinct and the baseline is named without parameters", "URLs have a path, hosts are plain names"]

VAL = st.one_of(st.sampled_from(["a=b; c=d", "x", "1", "k=v;l=w", "p q", "close, x-drop", "X-Drop, Via", "close,\tx-a", "max-age=0"]), gen.raw_value(8))
HN = st.sampled_from(["Cookie", "Accept", "X-Drop", "Connection", "Keep-Alive", "Via", "x-a", "Set-Cookie"])


@st.composite
def entry(draw):
    return {"scheme": draw(st.sampled_from(["http", "https", "http", "https", "ftp"])),
            "host": draw(st.sampled_from(["a.example.com", "b.example.com", "www.other.org", "A.example.com", "x.co.uk", "h:81"])),
            "path": draw(st.sampled_from(["/", "/a?b=c", "/x/y"])),
            "reqh": draw(st.lists(st.tuples(HN, VAL).map(list), max_size=4)),
            "resh": draw(st.lists(st.tuples(HN, VAL).map(list), max_size=4)),
            "status": draw(st.sampled_from([200, 404, 304])), "text": draw(st.sampled_from(["", "Fine"]))}


fault = st.one_of(
    st.just(["ok"]), st.just(["ok"]),
    st.tuples(st.just("set"), st.sampled_from(["x-a", "cookie", "extra", ":status", "connection", ":version"]), st.sampled_from(["zz", "x", "c=d; a=b"])).map(list),
    st.tuples(st.just("drop"), st.sampled_from(["x-a", "cookie", "via", ":path", ":status"])).map(list),
    st.tuples(st.just("append"), st.sampled_from(["x-a", "cookie", "via", ":path"]), st.sampled_from([" ", "!", "\0x", "; e=f", ";"])).map(list),
    st.tuples(st.just("reverse"), st.sampled_from(["cookie", "set-cookie", "via"]), st.sampled_from([";", "\0", "; "])).map(list))


@st.composite
def stub(draw):
    if draw(st.integers(0, 4)) == 0:
        beh = ["notimpl"]
    elif draw(st.integers(0, 2)) == 0:
        beh = [["ok"]]
    else:
        beh = draw(st.lists(fault, min_size=1, max_size=4))
    return {"behaviour": beh, "sizes": draw(st.lists(st.integers(1, 400), min_size=1, max_size=4)),
            "params": draw(st.one_of(st.just([]), st.lists(st.sampled_from(["dict", "buffer=12", "a", "b=c=d", "x", "a b", "x\"y", "K=V W", "k="]), min_size=1, max_size=3))),
            "quoted": draw(st.booleans()), "sep": draw(st.sampled_from([",", ", ", " , ", ",  "])), "done_raises": draw(st.integers(0, 5)) == 0}


@st.composite
def case(draw):
    n = draw(st.integers(1, 3))
    stubs = [draw(stub()) for _ in range(n)]
    base = draw(st.sampled_from([None, None, "vfs0", "vfbase"]))
    if base == "vfs0" and stubs[0]["params"]:
        stubs[0]["params"] = []
    if n > 1 and draw(st.integers(0, 3)) == 0:
        # the same codec twice, with other parameters
        stubs[1] = dict(stubs[0], params=stubs[1]["params"], quoted=stubs[1]["quoted"], sep=stubs[1]["sep"], twin=True)
        if stubs[1]["params"] == stubs[0]["params"]:
            stubs[1]["params"] = stubs[1]["params"] + ["twin"]
    hars = [draw(st.lists(entry(), min_size=1 if i == 0 else 0, max_size=4)) for i in range(draw(st.integers(1, 2)))]
    if not any(e["scheme"] != "ftp" for h in hars for e in h):
        hars[0][0]["scheme"] = "http"
    return {"hars": hars, "stubs": stubs, "baseline": base,
            "streamifier": draw(st.sampled_from([None, "all_one", "host", "all_one", "host", "public_suffix"])),
            "verbose": draw(st.sampled_from([0, 0, 1, 2, 3, 4])),
            "debug": draw(st.integers(0, 6)) == 0, "tsv": draw(st.integers(0, 3)) > 0}


def fold(pairs):
    d = {}
    for n, v in pairs:
        d.setdefault(n.lower(), []).append(v)
    return {k: "\0".join(v) for k, v in d.items()}


def to_har(entries):
    return {"log": {"entries": [
        {"request": {"url": "%s://%s%s" % (e["scheme"], e["host"], e["path"]), "method": "GET", "httpVersion": "HTTP/1.1",
                     "headers": [{"name": n, "value": v} for n, v in e["reqh"]]},
         "response": {"status": e["status"], "statusText": e["text"], "httpVersion": "HTTP/1.1",
                      "headers": [{"name": n, "value": v} for n, v in e["resh"]]}} for e in entries]}}


def messages(entries):
    out = []
    for e in entries:
        if e["scheme"] == "ftp":
            continue
        q = fold(e["reqh"])
        q.update({":method": "get", ":path": e["path"], ":scheme": e["scheme"], ":host": e["host"], ":version": "HTTP/1.1"})
        s = fold(e["resh"])
        s.update({":status": str(e["status"]), ":version": "HTTP/1.1",
                  ":status-text": e["text"] or {200: "OK", 404: "Not Found", 304: "Not Modified"}[e["status"]]})
        out.append((q, s, e["host"]))
    return out


def filt(h):
    drop = {":status-text", ":version", "keep-alive", "connection"}
    if "connection" in h:
        drop |= {t.strip(" \t").lower() for t in h["connection"].replace("\0", ",").split(",")}
    return {k: v for k, v in h.items() if k not in drop}


def http1_len(h):
    if ":method" in h:
        n = len("%s %s HTTP/1.1\r\n" % (h[":method"], h[":path"]))
        skip = (":method", ":path", ":version")
    else:
        n = len("HTTP/1.1 %s ?\r\n" % h[":status"])
        skip = (":version", ":status", ":status-text")
    for k, v in h.items():
        if k in skip:
            continue
        k = "host" if k == ":host" else k
        n += sum(len(k) + len(x) + 4 for x in v.split("\0"))
    return n + 2


def mutate(h, how):
    h = dict(h)
    kind, arg = how[0], how[1:]
    if kind == "set":
        h[arg[0]] = arg[1]
    elif kind == "drop":
        h.pop(arg[0], None)
    elif kind == "append":
        h[arg[0]] = h.get(arg[0], "") + arg[1]
    elif kind == "reverse" and arg[0] in h:
        h[arg[0]] = arg[1].join(reversed(h[arg[0]].split(arg[1])))
    return h


def run(c, env):
    w = env.worker("py3")
    argv, specs, codecs = [], {}, []
    for i, s in enumerate(c["stubs"]):
        name = "vfs%d" % (0 if s.get("twin") else i)
        arg = name
        if s["params"]:
            p = s.get("sep", ",").join(s["params"])
            arg += '="%s"' % p if s["quoted"] else "=" + p
        argv += ["-c", arg]
        if not s.get("twin"):
            specs[name] = {"behaviour": s["behaviour"], "sizes": s["sizes"], "done_raises": s["done_raises"]}
        codecs.append((name, name + (" (%s)" % ", ".join(s["params"]) if s["params"] else ""), s))
    baseline = c["baseline"] or "http1"
    if c["baseline"]:
        argv += ["-b", c["baseline"]]
    if baseline == "vfbase":
        bs = {"behaviour": [["ok"]], "sizes": [100, 37], "params": [], "done_raises": False}
        specs["vfbase"] = bs
        codecs.insert(0, ("vfbase", "vfbase", bs))
    elif baseline == "http1":
        codecs.insert(0, ("http1", "http1", None))
    if c["streamifier"]:
        argv += ["-s", c["streamifier"]]
    if c["verbose"]:
        argv += ["-v", str(c["verbose"])]
    if c["debug"]:
        argv += ["-d"]
    if c["tsv"]:
        argv += ["-t"]

    # ---- reference run
    sessions = []
    for entries in c["hars"]:
        msgs = messages(entries)
        kind = c["streamifier"] or "public_suffix"
        if kind == "all_one":
            keys = ["all"] * len(msgs)
            order = ["all"]
            hosts = [m[2] for m in msgs]
        elif kind == "host":
            keys = [m[2].strip().lower() for m in msgs]
            hosts = keys
            order = list(dict.fromkeys(keys))
        else:
            keys = w.call("suffixes", hosts=[m[2].split(":")[0] for m in msgs])["ok"]
            hosts = [m[2] for m in msgs]
            order = list(dict.fromkeys(keys))
        for k in order:
            for t, j in (("req", 0), ("res", 1)):
                sessions.append((k, t, [(filt(m[j]), hosts[i]) for i, m in enumerate(msgs) if keys[i] == k]))
    if any(not s[2] for s in sessions):
        return {"nontrivial": False, "labels": ["empty-stream-skipped"]}
    calls, mism, res, stop = [], [], [], False
    for si, (name, t, msgs) in enumerate(sessions):
        rows = []
        for mi, (h, host) in enumerate(msgs):
            row = {}
            for mod, pname, s in codecs:
                if stop:
                    break
                if s is None:
                    row[pname] = http1_len(h)
                    continue
                size = s["sizes"][mi % len(s["sizes"])]
                row[pname] = size
                calls.append((mod, si, t, h, host, s["behaviour"] != ["notimpl"], pname, s["params"]))
                if s["behaviour"] != ["notimpl"]:
                    d = mutate(h, s["behaviour"][mi % len(s["behaviour"])])
                    rep = h04.expect(h, "orig", d, pname)
                    if rep:
                        mism.append((pname, rep))
                        stop = stop or c["debug"]
            rows.append(row)
        res.append((name, t, rows))

    # ---- real run
    r = w.call("run_tester", hars=[to_har(e) for e in c["hars"]], argv=argv, stubs=specs, prefix_name="p-")
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    r = r["ok"]
    if stop != (r["exit"] is not None):
        raise Violation("debug-exit", "exit %r, expected to stop: %r" % (r["exit"], stop))

    # ---- what the codecs saw
    insts = {e[2]: e for e in r["log"] if e[0] == "new"}
    got = []
    owner = {}
    log = [e for e in r["log"] if e[0] in ("compress", "decompress")]
    i = 0
    while i < len(log):
        e = log[i]
        if e[0] != "compress":
            raise Violation("order", "decompress without compress: %r" % e)
        verified = False
        if i + 1 < len(log) and log[i + 1][0] == "decompress":
            if log[i + 1][2] != e[2] or log[i + 1][3] is not True:
                raise Violation("decompress-input", "codec %s did not get its own output back" % e[1])
            verified = True
        got.append((e[1], e[2], e[3], e[4], verified))
        i += 2 if verified else 1
    if len(got) != len(calls):
        raise Violation("calls", "%d codec calls, expected %d" % (len(got), len(calls)))
    for g, wnt in zip(got, calls):
        mod, si, t, h, host, verified, pname, params = wnt
        if g[0] != mod or g[2] != h or g[3] != host or g[4] != verified:
            raise Violation("call", "codec call %r, expected %r" % (g, wnt))
        n = insts[g[1]]
        if n[3] != (t == "req") or n[4] != params:
            raise Violation("instance", "codec %s built with is_request=%r params=%r for a %s stream, expected params %r" % (mod, n[3], n[4], t, params))
        if owner.setdefault(g[1], (si, pname)) != (si, pname):
            raise Violation("shared-instance", "codec instance %d of %s used for two streams" % (g[1], mod))
    if len(set(owner.values())) != len(owner):
        raise Violation("split-instance", "a stream used two instances of one codec")

    # ---- what was reported
    out = r["out"]
    names = re.findall(r"^  - mismatch in (.*?)(?::)?$", out, re.M)
    if names != [m[0] for m in mism]:
        raise Violation("mismatches", "reported %r, expected %r" % (names, [m[0] for m in mism]))
    if c["verbose"] > 1:
        for pname, rep in mism:
            for side, lines in rep.items():
                if "Only found in: %s\n" % side not in out or any(l + "\n" not in out for l in lines):
                    raise Violation("mismatch-text", "difference %r not in output %r" % (rep, out))
    warned = re.findall(r"WARNING: (.*) decompression not checked", r["stderr"])
    want_warn = [p for m, p, s in codecs if s and s["behaviour"] == ["notimpl"] and any(x[6] == p for x in calls)]
    if sorted(warned) != sorted(want_warn):
        raise Violation("warnings", "warned about %r, expected %r" % (warned, want_warn))
    if not stop:
        report(c, out, r, res, [p for _, p, _ in codecs], baseline)
        done = [e for e in r["log"] if e[0] == "done"]
        if any(e[2] not in insts for e in done):
            raise Violation("done", "unknown instance finished")
    nmsg = sum(len(s[2]) for s in sessions)
    labels = ["streams=%d" % min(4, len(sessions)), "verbose=%d" % c["verbose"]]
    labels += ["mismatch"] if mism else []
    labels += ["debug-stop"] if stop else []
    labels += ["twins"] if any(s.get("twin") for s in c["stubs"]) else []
    labels += ["params"] if any(s["params"] for s in c["stubs"]) else []
    return {"nontrivial": nmsg >= 2 and (bool(mism) or len(sessions) > 2), "labels": labels}


BLOCK = re.compile(r"^\* (.*): (\d+) (req|res) messages\n", re.M)


def report(c, out, r, res, procs, baseline):
    blocks = []
    heads = list(BLOCK.finditer(out))
    for i, m in enumerate(heads):
        end = heads[i + 1].start() if i + 1 < len(heads) else len(out)
        blocks.append((m.group(1), int(m.group(2)), m.group(3), out[m.end():end]))
    want = []
    if c["verbose"] > 0:
        want += [(n, t, rows) for n, t, rows in res]
    for t in ("req", "res"):
        want.append(("TOTAL", t, [row for n, tt, rows in res if tt == t for row in rows]))
    if [(b[0], b[1], b[2]) for b in blocks] != [(n, len(rows), t) for n, t, rows in want]:
        raise Violation("blocks", "reported streams %r, expected %r" % ([b[:3] for b in blocks], [(n, len(x), t) for n, t, x in want]))
    for b, (n, t, rows) in zip(blocks, want):
        lines = re.findall(r"^\s*(\S.*?)\s+([\d,]+)\s+(%s) \|\s*(%s)\s+(%s)\s+(%s)\s+(%s)\s*$" % ((h05.NUM,) * 5), b[3], re.M)
        if [l[0] for l in lines] != procs:
            raise Violation("summary-procs", "summary of %s lists %r, expected %r" % (n, [l[0] for l in lines], procs))
        bsum = sum(row[baseline] for row in rows)
        for l, p in zip(lines, procs):
            tot = sum(row[p] for row in rows)
            ratios = [1.0 if p == baseline else row[p] / row[baseline] for row in rows]
            mean = sum(ratios) / len(ratios)
            std = (sum((x - mean) ** 2 for x in ratios) / (len(ratios) - 1)) ** .5 if len(ratios) > 1 else 0
            if int(l[1].replace(",", "")) != tot:
                raise Violation("summary-size", "%s of %s: %s, expected %d" % (p, n, l[1], tot))
            for lab, g, e in zip(("ratio", "min", "max", "std"), l[3:], (tot / bsum, min(ratios), max(ratios), std)):
                if abs(float(g) - e) > 0.0051 + 1e-9 * e:
                    raise Violation("summary-" + lab, "%s of %s: %s, expected %r" % (p, n, g, e))
    if c["tsv"]:
        for t in ("req", "res"):
            rows = [x.split("\t") for x in r[t].split("\n")]
            exp = [["num", "name"] + procs]
            for n, tt, rr in res:
                if tt == t:
                    for row in rr:
                        exp.append([str(len(exp)), n] + [str(row[p]) for p in procs])
            if rows != exp + [[""]]:
                raise Violation("tsv", "%s.tsv is %r, expected %r" % (t, rows, exp))
    elif "req" in r or "res" in r:
        raise Violation("tsv", "TSV written without being asked for")


REAL = ["http1_gzip", "http1_huffman", "spdy3", "spdy3=dict", "hyper_hpack", 'spdy3="dict"']


@st.composite
def real_case(draw):
    c = draw(case())
    codecs = draw(st.lists(st.sampled_from(REAL), min_size=1, max_size=4, unique_by=lambda n: n.replace('"', "")))
    return {"hars": c["hars"], "codecs": codecs, "baseline": draw(st.sampled_from([None, "http1", "hyper_hpack", "http1_gzip"])),
            "streamifier": c["streamifier"], "verbose": draw(st.sampled_from([0, 0, 1, 2, 5]))}


def run_real(c, env):
    """The shipped codecs: sizes as each emits when driven alone, stream by stream."""
    w = env.worker("py3")
    baseline = c["baseline"] or "http1"
    names = ([] if baseline in c["codecs"] else [baseline]) + c["codecs"]
    argv = ["-t"] + [x for n in c["codecs"] for x in ("-c", n)]
    argv += ["-b", c["baseline"]] if c["baseline"] else []
    argv += ["-s", c["streamifier"]] if c["streamifier"] else []
    argv += ["-v", str(c["verbose"])] if c["verbose"] else []
    kind = c["streamifier"] or "public_suffix"
    sessions = []
    for entries in c["hars"]:
        reqs, ress = w.call("har2hdrs", har=to_har(entries))["ok"]
        hosts = [e["host"] for e in entries if e["scheme"] != "ftp"]
        if kind == "all_one":
            keys, order = ["all"] * len(hosts), ["all"]
        else:
            keys = [h.strip().lower() for h in hosts] if kind == "host" else w.call("suffixes", hosts=[h.split(":")[0] for h in hosts])["ok"]
            order = list(dict.fromkeys(keys))
        for k in order:
            for t, msgs in (("req", reqs), ("res", ress)):
                sessions.append((k, t, [filt(m) for m, kk in zip(msgs, keys) if kk == k]))
    if any(not s[2] for s in sessions):
        return {"nontrivial": False, "labels": ["empty-stream-skipped"]}
    procs, res = [], []
    for n in names:
        mod, _, p = n.partition("=")
        p = p.strip('"')
        procs.append((mod, [p] if p else [], "%s (%s)" % (mod, p) if p else mod))
    for name, t, msgs in sessions:
        rows = [{} for _ in msgs]
        for mod, params, pname in procs:
            a = env.worker("py3:1").call("codec_history", name=mod, is_request=t == "req", params=params, msgs=msgs)
            if "exc" in a:
                raise Violation("codec-exception", "%s: %s %s %s" % (mod, a["exc"], a["msg"], a["tb"]))
            for row, o in zip(rows, a["ok"]):
                row[pname] = len(o["wire"])
        res.append((name, t, rows))
    r = w.call("run_tester", hars=[to_har(e) for e in c["hars"]], argv=argv, stubs={}, prefix_name="p-")
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    r = r["ok"]
    if r["exit"] is not None:
        raise Violation("exit", "exit %r" % r["exit"])
    if "mismatch" in r["out"]:
        raise Violation("real-mismatch", "a shipped codec is reported not to give back its messages: %r" % r["out"])
    # with more verbosity the texts of the messages are shown between the blocks
    report({"verbose": c["verbose"], "tsv": True}, r["out"], r, res, [p[2] for p in procs], baseline)
    nmsg = sum(len(s[2]) for s in sessions)
    return {"nontrivial": nmsg > 2 and len(c["codecs"]) > 1, "labels": ["streams=%d" % min(4, len(sessions))] + sorted(c["codecs"])}


TARGETS = [Target("run", case, run, 1400), Target("real", real_case, run_real, 500)]
