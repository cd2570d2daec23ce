"""H07: display_tsv.html, run against a recording stand-in for d3, shows what the TSV files say."""
import json
import math
import re

from hypothesis import strategies as st

from ..core import Target, Violation

RULE = ("request and response TSV files of 1-10 codecs, 1-16 messages in runs of streams, drawn by the page's script against a recording stand-in for d3 version 3; "
        "the drawing is read back and turned into numbers again; non-trivial = two or more codecs or streams, with unequal sizes")
ASSUMPTIONS = ["a TSV has at least one message; at most ten codecs (the colour scale has ten colours)",
               "d3 is a stand-in with the documented version 3 behaviour of the functions charts use: curves go through their points, and tick marks are not drawn"]

pname = st.one_of(st.sampled_from(["http1", "spdy3", "delta2", "delta2 (a, b)", "http2 (buffer=1)", "x", "simple", "fork (a.py)"]),
                  st.text("abcxyz_0123456789 ()=.", min_size=1, max_size=8).filter(lambda s: not s.strip().isdigit() and s not in ("num", "name")))
sname = st.one_of(st.sampled_from(["a.com", "b.org", "www.example.co.uk", "h:81", "TOTAL"]), st.text("abc.-", min_size=1, max_size=6))
size = st.one_of(st.integers(0, 60), st.integers(0, 5000), st.integers(100000, 30000000))


@st.composite
def table(draw, procs):
    rows = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(sname)
        for _ in range(draw(st.integers(1, 4))):
            rows.append([n] + [draw(size) for _ in procs])
    if draw(st.integers(0, 9)) == 0:
        rows = rows[:1]
    return rows


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4, 10]))
    procs = draw(st.lists(pname, min_size=n, max_size=n, unique=True))
    return {"procs": procs, "req": draw(table(procs)), "res": draw(table(procs)), "late": draw(st.booleans())}


def tsv(procs, rows):
    return "\t".join(["num", "name"] + procs) + "\n" + "".join(
        "\t".join([str(i + 1)] + [str(v) for v in r]) + "\n" for i, r in enumerate(rows))


def mul(m, k):
    a, b, c, d, e, f = m
    A, B, C, D, E, F = k
    return (a * A + c * B, b * A + d * B, a * C + c * D, b * C + d * D, a * E + c * F + e, b * E + d * F + f)


def num(v, where):
    try:
        x = float(v)
    except (TypeError, ValueError):
        raise Violation("number", "%s is %r" % (where, v))
    if not math.isfinite(x):
        raise Violation("number", "%s is %r" % (where, v))
    return x


def transform(text):
    m = (1, 0, 0, 1, 0, 0)
    for name, args in re.findall(r"(\w+)\s*\(([^)]*)\)", str(text)):
        a = [num(x, "transform %r" % text) for x in re.split(r"[\s,]+", args.strip()) if x]
        if name == "translate":
            k = (1, 0, 0, 1, a[0], a[1] if len(a) > 1 else 0)
        elif name == "rotate":
            t = math.radians(a[0])
            k = (math.cos(t), math.sin(t), -math.sin(t), math.cos(t), 0, 0)
            if len(a) == 3:
                k = mul(mul((1, 0, 0, 1, a[1], a[2]), k), (1, 0, 0, 1, -a[1], -a[2]))
        elif name == "scale":
            k = (a[0], 0, 0, a[-1], 0, 0)
        else:
            raise Violation("transform", "%r" % text)
        m = mul(m, k)
    return m


def at(m, x, y):
    return (m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5])


def em(v, where):
    v = str(v)
    if v.endswith("em"):
        return 0.0          # an offset of the text, not of its anchor
    return num(v[:-2] if v.endswith("px") else v, where)


def read(svg):
    """The elements of one chart, with absolute positions."""
    lines, texts, axes = [], [], []

    def walk(n, m):
        if "transform" in n["attrs"]:
            m = mul(m, transform(n["attrs"]["transform"]))
        if n.get("axis"):
            axes.append((n["axis"], m))
        if n["tag"] == "path" and n["attrs"].get("d") is not None and not str(n["attrs"]["d"]).startswith("area"):
            pts = json.loads(n["attrs"]["d"])
            if any(v is None for p in pts for v in p):
                raise Violation("number", "line through %r" % pts)
            lines.append({"pts": [at(m, x, y) for x, y in pts], "color": n["styles"].get("stroke", n["attrs"].get("stroke"))})
        if n["tag"] == "text" and n["text"]:
            x, y = em(n["attrs"].get("x", 0), "x"), em(n["attrs"].get("y", 0), "y")
            texts.append({"text": n["text"], "color": n["styles"].get("fill", n["attrs"].get("fill")), "at": at(m, x, y), "origin": at(m, 0, 0)})
        for k in n["kids"]:
            walk(k, m)
    walk(svg, (1, 0, 0, 1, 0, 0))
    return lines, texts, axes


def words(n):
    return [n["text"]] + [w for k in n["kids"] for w in words(k)]


def near(a, b):
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def fit(pairs, what):
    """The affine map v -> p through all the pairs (v, p), as (p0, slope);
    slope None if there is but one v."""
    lo, hi = min(pairs), max(pairs)
    if lo[0] == hi[0]:
        if any(not near(p, lo[1]) for _, p in pairs):
            raise Violation("scale", "%s: equal values at different places: %r" % (what, sorted(set(pairs))[:8]))
        return lo[1], None
    k = (hi[1] - lo[1]) / (hi[0] - lo[0])
    for v, p in pairs:
        # pixels: a hundredth is invisible
        if abs(lo[1] + k * (v - lo[0]) - p) > 0.01:
            raise Violation("scale", "%s: %r is drawn at %r, expected %r" % (what, v, p, lo[1] + k * (v - lo[0])))
    return lo[1], k


def check_chart(svg, procs, rows, title):
    w, h = num(svg["attrs"].get("width"), "width"), num(svg["attrs"].get("height"), "height")
    lines, texts, axes = read(svg)
    by_color = {}
    for l in lines:
        if l["color"] in by_color:
            raise Violation("colours", "two lines of colour %r" % l["color"])
        by_color[l["color"]] = l
    labels = [t for t in texts if t["color"] is not None]
    if [t["text"] for t in labels] != procs:
        raise Violation("codecs", "lines are labelled %r, expected %r" % ([t["text"] for t in labels], procs))
    if len(lines) != len(procs):
        raise Violation("codecs", "%d lines for %d codecs" % (len(lines), len(procs)))
    xs, ys = [], []
    for i, t in enumerate(labels):
        l = by_color.get(t["color"])
        if l is None:
            raise Violation("colours", "label %r has a colour no line has" % t["text"])
        if len(l["pts"]) != len(rows):
            raise Violation("points", "%d points for %d messages" % (len(l["pts"]), len(rows)))
        for n, (p, r) in enumerate(zip(l["pts"], rows)):
            if not (-0.01 <= p[0] <= w + 0.01 and -0.01 <= p[1] <= h + 0.01):
                raise Violation("outside", "%r drawn at %r in a chart of %r" % (r, p, (w, h)))
            xs.append((n + 1, p[0]))
            ys.append((r[1 + i], p[1]))
        if not (near(t["origin"][0], l["pts"][-1][0]) and near(t["origin"][1], l["pts"][-1][1])):
            raise Violation("label", "%r is at %r, its line ends at %r" % (t["text"], t["origin"], l["pts"][-1]))
    _, kx = fit(xs, "message number")
    _, ky = fit(ys, "size")
    if kx is not None and kx <= 0 or ky is not None and ky >= 0:
        raise Violation("direction", "slopes %r, %r" % (kx, ky))
    xat = dict(xs)
    # streams
    want, last = [], None
    for n, r in enumerate(rows):
        if r[0] != last:
            want.append((r[0], xat[n + 1]))
            last = r[0]
    rest = [t for t in texts if t["color"] is None]
    titles = [t for t in rest if t["text"] == title]
    if not titles:
        raise Violation("title", "no title %r among %r" % (title, [t["text"] for t in rest]))
    got = [(t["text"], t["at"][0]) for t in rest if t is not titles[-1] and t["text"] != "compressed size, bytes"]
    if [n for n, _ in got] != [n for n, _ in want]:
        raise Violation("streams", "stream labels %r, expected %r" % ([n for n, _ in got], [n for n, _ in want]))
    for g, e in zip(got, want):
        if not near(g[1], e[1]):
            raise Violation("stream place", "stream %r is labelled at %r, starts at %r" % (g[0], g[1], e[1]))
    # the axes read as the lines are drawn
    for ax, m in axes:
        for v, p in zip(ax["domain"], ax["range"]):
            if v is None or p is None:
                raise Violation("axis", "axis %r" % ax)
            if ax["orient"] in ("bottom", "top"):
                pairs, q = xs, at(m, p, 0)[0]
            else:
                pairs, q = ys, at(m, 0, p)[1]
            if len({v for v, _ in pairs}) > 1:
                base, k = fit(pairs, "axis")
                if abs(base + k * (v - min(pairs)[0]) - q) > 0.02:
                    raise Violation("axis", "%s axis reads %r where %r is drawn" % (ax["orient"], v, (q - base) / k + min(pairs)[0]))
    if {a["orient"] for a, _ in axes} != {"bottom", "left"}:
        raise Violation("axes", "%r" % [a["orient"] for a, _ in axes])


def run(c, env):
    files = {"req.tsv": tsv(c["procs"], c["req"]), "res.tsv": tsv(c["procs"], c["res"])}
    r = env.worker("node").call("draw", files=files, late=c["late"])
    if "exc" in r:
        raise Violation("exception", "%s %s" % (r["exc"], r["msg"]))
    svgs = [k for k in r["ok"]["kids"] if k["tag"] == "svg"]
    if len(svgs) != 2:
        raise Violation("charts", "%d charts" % len(svgs))
    for title, key in (("Requests", "req"), ("Responses", "res")):
        mine = [k for k in svgs if title in words(k)]
        if len(mine) != 1:
            raise Violation("title", "%d charts are entitled %r" % (len(mine), title))
        check_chart(mine[0], c["procs"], c[key], title)
    flat = [v for rows in (c["req"], c["res"]) for x in rows for v in x[1:]]
    streams = max(len({x[0] for x in rows}) for rows in (c["req"], c["res"]))
    return {"nontrivial": len(set(flat)) > 1 and (len(c["procs"]) > 1 or streams > 1),
            "labels": ["codecs:%d" % min(len(c["procs"]), 5)] + (["several-streams"] if streams > 1 else []) + (["late"] if c["late"] else [])}


TARGETS = [Target("chart", case, run, 2000)]
