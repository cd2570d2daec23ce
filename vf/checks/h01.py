"""H01: HAR -> header dictionaries, against a component-wise reference."""
import http.client
import json

from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen

RULE = ("HAR logs built component-wise (URL from scheme/authority/path/query/fragment parts); "
        "non-trivial = at least one HTTP(S) entry and (a repeated field, a Host field, a non-HTTP entry, or an empty status text)")
ASSUMPTIONS = ["field names are non-empty ASCII; URLs are syntactically valid; status has no line breaks"]

hname = st.one_of(st.sampled_from(["Host", "host", "HOST", "Cookie", "cookie", "Set-Cookie", "X-A", "x-a", "Accept", "VIA"]),
                  gen.token().map(lambda s: s), gen.token().map(lambda s: s.upper()),
                  gen.token().map(lambda s: s.title()),
                  # HTTP/2 captures list pseudo headers as fields
                  st.sampled_from([":method", ":path", ":authority", ":scheme", ":status", ":version", ":Status-Text", "a" * 300]))
hdrs = st.lists(st.tuples(hname, gen.latin_value()).map(list), max_size=7)

host = st.builds(lambda labels, port: ".".join(labels) + port,
                 st.lists(st.text(alphabet="abcXYZ019-", min_size=1, max_size=5), min_size=1, max_size=3),
                 st.sampled_from(["", "", ":80", ":8080"]))
host = st.one_of(host, host, host, st.sampled_from(["[::1]", "[2001:DB8::7]:8080", "user:pw@h.example", "127.0.0.1:443", "xn--bcher-kva.example", "H.Example."]))
seg = st.text(alphabet="abcZ09-_.~%;=:@!,+", max_size=5)


@st.composite
def entry(draw):
    scheme = draw(st.sampled_from(["http", "https", "HTTP", "Https", "http", "https", "ftp", "data", "about", "chrome", "httpx", "ws"]))
    path = draw(st.one_of(st.just("/"), st.lists(seg, min_size=1, max_size=3).map(lambda s: "/" + "/".join(s))))
    if path.startswith("//"):
        path = "/x" + path
    if draw(st.integers(0, 9)) == 0:
        path = ""
    query = draw(st.one_of(st.none(), st.text(alphabet="abc=&/?:;%1", max_size=8)))
    frag = draw(st.one_of(st.none(), st.none(), st.text(alphabet="abc/?1", max_size=4)))
    return {
        "scheme": scheme, "auth": draw(host), "path": path, "query": query, "frag": frag,
        "method": draw(st.sampled_from(["GET", "POST", "get", "Options", "PROPFIND"])),
        "reqver": draw(st.sampled_from(["HTTP/1.1", "HTTP/1.0", "h2", ""])),
        "resver": draw(st.sampled_from(["HTTP/1.1", "HTTP/1.0", "", "unknown"])),
        "reqh": draw(hdrs), "resh": draw(hdrs),
        "status": draw(st.one_of(st.sampled_from(sorted(http.client.responses)), st.integers(0, 999),
                                 st.integers(100, 599).map(str), st.integers(100, 599).map(lambda i: "%d OK" % i))),
        "text": draw(st.sampled_from(["OK", "Not Found", "", "  ", " Moved here ", "x", "OK", "R\u00e9"])),
    }


def strategy():
    return st.one_of(st.lists(entry(), max_size=5), st.lists(entry(), max_size=5), st.lists(entry(), max_size=5), st.lists(entry(), min_size=6, max_size=25))


def to_har(entries):
    out = []
    for e in entries:
        url = e["scheme"] + ("://" + e["auth"] if e["scheme"] not in ("data", "about") else ":") + e["path"]
        if e["query"] is not None:
            url += "?" + e["query"]
        if e["frag"] is not None:
            url += "#" + e["frag"]
        out.append({
            "request": {"url": url, "method": e["method"], "httpVersion": e["reqver"],
                        "headers": [{"name": n, "value": v} for n, v in e["reqh"]]},
            "response": {"status": e["status"], "statusText": e["text"], "httpVersion": e["resver"],
                         "headers": [{"name": n, "value": v} for n, v in e["resh"]]}})
    return {"log": {"entries": out}}


def fold(pairs):
    d = {}
    for n, v in pairs:
        n = "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in n)
        n = ":host" if n == "host" else n
        d.setdefault(n, []).append(v)
    return {k: "\0".join(v) for k, v in d.items()}


def reference(entries):
    reqs, ress = [], []
    for e in entries:
        if e["scheme"].lower() not in ("http", "https"):
            continue
        r = fold(e["reqh"])
        r[":method"] = e["method"].lower()
        r[":path"] = e["path"] + ("?" + e["query"] if e["query"] else "")
        r[":scheme"] = e["scheme"].lower()
        r[":version"] = e["reqver"]
        if ":host" not in r:
            r[":host"] = e["auth"]
        reqs.append(r)
        s = fold(e["resh"])
        digits = str(e["status"]).split(" ")[0]
        s[":status"] = digits
        s[":version"] = e["resver"]
        text = e["text"].strip()
        if text:
            texts = [text]
        else:
            std = http.client.responses.get(int(digits))
            texts = [std] if digits in MUST_PHRASE else [std, "unknown"]
        s[":status-text"] = texts
        ress.append(s)
    return reqs, ress


# Codes for which the standard phrase must be supplied: the common ones.
MUST_PHRASE = set("200 201 202 203 204 205 206 300 301 302 303 304 307 308 400 401 403 404 405 406 408 409 410 500".split())


def compare(entries, got_req, got_res):
    want_req, want_res = reference(entries)
    if len(got_req) != len(want_req) or len(got_res) != len(want_res):
        raise Violation("count", "expected %d requests/responses, got %d/%d" % (len(want_req), len(got_req), len(got_res)))
    for g, w in zip(got_req, want_req):
        if w[":path"] in ("",) or w[":path"].startswith("?"):
            w = dict(w)
            if g.get(":path") == "/" + w[":path"]:
                w[":path"] = "/" + w[":path"]
        if g != w:
            raise Violation("request", "expected %r, got %r" % (w, g))
    for g, w in zip(got_res, want_res):
        w = dict(w)
        texts = w.pop(":status-text")
        g = dict(g)
        t = g.pop(":status-text", None)
        if g != w:
            raise Violation("response", "expected %r, got %r" % (w, g))
        if t not in texts:
            raise Violation("status-text", "%r for status %r, expected one of %r" % (t, w[":status"], texts))


def info(entries):
    http_entries = [e for e in entries if e["scheme"].lower() in ("http", "https")]
    rep = any(len({n.lower() for n, _ in h}) < len(h) for e in http_entries for h in (e["reqh"], e["resh"]))
    hosth = any(n.lower() == "host" for e in http_entries for n, _ in e["reqh"])
    skip = len(http_entries) < len(entries)
    nophrase = any(not e["text"].strip() for e in http_entries)
    labels = [l for l, c in (("repeated", rep), ("host-field", hosth), ("skipped", skip), ("no-phrase", nophrase),
                             ("query", any(e["query"] for e in http_entries)),
                             ("fragment", any(e["frag"] for e in http_entries)),
                             ("no-path", any(not e["path"] for e in http_entries))) if c]
    return {"nontrivial": bool(http_entries) and (rep or hosth or skip or nophrase), "labels": labels}


def run_dict(entries, env):
    r = env.worker("py3").call("har2hdrs", har=to_har(entries))
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    compare(entries, *r["ok"])
    return info(entries)


def run_file(entries, env):
    har = json.dumps(to_har(entries), indent=1)
    r = env.worker("py3").call("read_har", text=har)
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    if "exit" in r["ok"]:
        raise Violation("rejected", repr(r["ok"]))
    compare(entries, r["ok"]["req"], r["ok"]["res"])
    return info(entries)


def run_bad(case, env):
    entries, cut, extra = case
    text = json.dumps(to_har(entries))
    text = text[:max(0, len(text) - 1 - cut)] + extra
    try:
        json.loads(text)
        return {"nontrivial": False}
    except ValueError:
        pass
    r = env.worker("py3").call("read_har", text=text)
    if "exc" in r:
        raise Violation("bad-file-exception", "unreadable file ends in %s %s %s" % (r["exc"], r["msg"], r["tb"]))
    if "exit" not in r["ok"]:
        raise Violation("bad-file-accepted", repr(r["ok"]))
    if r["ok"]["exit"] in (0, None) or r["ok"]["path"] not in r["ok"]["stderr"]:
        raise Violation("bad-file-silent", repr(r["ok"]))
    return {"nontrivial": True, "labels": ["bad-json"]}


TARGETS = [
    Target("har2hdrs", strategy, run_dict, 3000),
    Target("read_har_file", strategy, run_file, 400),
    Target("unreadable", lambda: st.tuples(st.lists(entry(), max_size=1), st.integers(0, 400), st.sampled_from(["", "}", "]", "x"])).map(list), run_bad, 120),
]
