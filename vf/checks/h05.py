"""H05: stream statistics, TSV and totals, against exact recomputation."""
import math
import re
from fractions import Fraction

from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen

RULE = ("1-4 streams, 1-4 codecs, 1-6 recorded messages each, plus several ways of adding the streams up (binary + from the left and from the right, sum()); "
        "non-trivial = some stream has two or more messages with unequal sizes, and an addition of two or more streams")
ASSUMPTIONS = ["every message is recorded for every codec with a non-zero baseline size (what the run loop does); printed numbers are compared to the two decimals shown"]

pname = st.one_of(st.sampled_from(["http1", "spdy3", "delta2 (a, b)", "http2 (buffer=1)", "x"]), gen.token(max_size=8))


@st.composite
def case(draw):
    procs = draw(st.lists(pname, min_size=1, max_size=4, unique=True))
    baseline = draw(st.sampled_from(procs))
    nstreams = draw(st.integers(1, 4))
    size = st.one_of(st.integers(0, 60), st.integers(0, 5000), st.integers(100000, 30000000))
    streams, mid = [], 0
    typ = draw(st.sampled_from(["req", "res"]))
    for i in range(nstreams):
        n = draw(st.integers(6, 30)) if draw(st.integers(0, 11)) == 0 else draw(st.integers(1, 5))
        results = []
        for _ in range(n):
            base = draw(st.one_of(st.integers(1, 60), st.integers(1, 4000)))
            rec = []
            for p in procs:
                s = base if p == baseline else draw(size)
                rec.append([p, s, 1.0 if p == baseline else 1.0 * s / base,
                            draw(st.sampled_from([0.0, 0.01, 0.25, 1.5, 0.125]))])
            results.append(draw(st.permutations(rec)))
        streams.append({"name": draw(st.sampled_from(["a.com", "b", "s%d" % i])), "type": typ,
                        "messages": list(range(mid, mid + n)), "results": results})
        mid += n
    adds = draw(st.lists(st.tuples(st.sampled_from(["reduce", "sum", "nest"]),
                                   st.lists(st.integers(0, nstreams - 1), min_size=1, max_size=4, unique=True)).map(list),
                         min_size=1, max_size=3))
    return {"procs": procs, "baseline": baseline, "streams": streams, "adds": adds}


NUM = r"-?\d+\.\d+"


def check_dump(d, want, procs, baseline, where):
    """want: {"messages", "name", "type", "res": [ {proc: (size, ratio, time)} ]}"""
    res = want["res"]
    if d["messages"] != [str(i) for i in want["messages"]]:
        raise Violation("messages", "%s: messages %r, expected %r" % (where, d["messages"], want["messages"]))
    for p in procs:
        for key, j in (("sizes", 0), ("ratios", 1), ("times", 2)):
            if d[key].get(p, []) != [r[p][j] for r in res]:
                raise Violation(key, "%s: %s of %s are %r, expected %r" % (where, key, p, d[key].get(p), [r[p][j] for r in res]))
    m = re.match(r"^\* (.*): (\d+) (req|res) messages\n$", d["header"], re.S)
    if not m or m.group(1) != want["name"] or int(m.group(2)) != len(res) or m.group(3) != want["type"]:
        raise Violation("header", "%s: header %r for %r" % (where, d["header"], want))
    lines = [l for l in d["summary"].split("\n") if l.strip()][1:]
    if len(lines) != len(procs):
        raise Violation("summary", "%s: %d lines for %d codecs: %r" % (where, len(lines), len(procs), d["summary"]))
    bsum = sum(r[baseline][0] for r in res)
    for p, line in zip(procs, lines):
        m = re.match(r"^\s*(.*?)\s+([\d,.']+)\s+(%s) \|\s*(%s)\s+(%s)\s+(%s)\s+(%s)\s*$" % ((NUM,) * 5), line)
        if not m or m.group(1) != p:
            raise Violation("summary-line", "%s: line %r for codec %r" % (where, line, p))
        total = sum(r[p][0] for r in res)
        if int(re.sub(r"\D", "", m.group(2))) != total:
            raise Violation("summary-size", "%s: %r, expected total %d" % (where, line, total))
        ratios = [Fraction(r[p][1]) for r in res]
        mean = sum(ratios) / len(ratios)
        std = math.sqrt(sum((x - mean) ** 2 for x in ratios) / (len(ratios) - 1)) if len(ratios) > 1 else 0.0
        want_nums = [sum(r[p][2] for r in res), total / bsum, float(min(ratios)), float(max(ratios)), std]
        for label, g, w in zip(("time", "ratio", "min", "max", "std"), m.groups()[2:], want_nums):
            if abs(float(g) - w) > 0.0051 + 1e-9 * abs(w):
                raise Violation("summary-" + label, "%s: codec %s shows %s=%s, expected %r (line %r)" % (where, p, label, g, w, line))
    for key, nkey, start in (("tsv", "n", 0), ("tsv41", "n41", 41)):
        rows = d[key].split("\n")
        if rows[-1] != "":
            raise Violation("tsv", "%s: no final newline" % where)
        rows = rows[:-1]
        if key == "tsv":
            if rows[0].split("\t") != ["num", "name"] + procs:
                raise Violation("tsv-header", "%s: %r" % (where, rows[0]))
            rows = rows[1:]
        exp = [[str(start + i + 1), want["name"]] + [str(r[p][0]) for p in procs] for i, r in enumerate(res)]
        if [r.split("\t") for r in rows] != exp:
            raise Violation("tsv-rows", "%s: %r, expected %r" % (where, rows, exp))
        if d[nkey] != start + len(res):
            raise Violation("tsv-count", "%s: count %r, expected %d" % (where, d[nkey], start + len(res)))


def run(c, env):
    procs, baseline = c["procs"], c["baseline"]
    r = env.worker("py3").call("stream_program", procs=procs, streams=c["streams"], baseline=baseline, adds=c["adds"])
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    r = r["ok"]

    def wanted(s):
        return {"messages": s["messages"], "name": s["name"], "type": s["type"],
                "res": [{p: (a, b, t) for p, a, b, t in rec} for rec in s["results"]]}

    ws = [wanted(s) for s in c["streams"]]
    for i, w in enumerate(ws):
        check_dump(r["before"][i], w, procs, baseline, "stream %d" % i)
    for (how, idxs), tot in zip(c["adds"], r["totals"]):
        w = {"messages": sum((ws[i]["messages"] for i in idxs), []), "type": ws[0]["type"],
             "res": sum((ws[i]["res"] for i in idxs), []),
             "name": tot["name"]}
        check_dump(tot, w, procs, baseline, "%s of %r" % (how, idxs))
        if tot["same"] and len(idxs) > 1:
            raise Violation("aliased-total", "the total of %r is one of the streams" % idxs)
    for i, w in enumerate(ws):
        check_dump(r["after"][i], w, procs, baseline, "stream %d after adding" % i)
    varied = any(len(w["res"]) > 1 and len({x[p][0] for x in w["res"]}) > 1 for w in ws for p in procs)
    many = any(len(i) > 1 for _, i in c["adds"])
    return {"nontrivial": varied and many,
            "labels": ["codecs=%d" % len(procs)] + (["adds-many"] if many else []) + (["varied"] if varied else [])}


def run_std(xs, env):
    r = env.worker("py3").call("meanstdv", xs=xs)
    if "exc" in r:
        raise Violation("std-exception", "%s %s" % (r["exc"], r["msg"]))
    fr = [Fraction(x) for x in xs]
    mean = sum(fr) / len(fr)
    std = math.sqrt(sum((x - mean) ** 2 for x in fr) / (len(fr) - 1))
    gm, gs = r["ok"]
    scale = max(1.0, max(abs(x) for x in xs))
    if abs(gm - float(mean)) > 1e-9 * scale or abs(gs - std) > 1e-6 * scale:
        raise Violation("std", "mean/std of %r: %r, expected %r" % (xs, r["ok"], [float(mean), std]))
    return {"nontrivial": len(set(xs)) > 1}


TARGETS = [
    Target("streams", case, run, 2500),
    Target("meanstdv", lambda: st.lists(st.floats(0, 50, allow_nan=False), min_size=2, max_size=12), run_std, 800),
]
