"""C14: typed header values against their documented encodings."""
from hypothesis import strategies as st

from ..core import Target, Violation
from ..ref import bohe as R

COPIES = ["bohe", "delta_bohe", "delta2_bohe"]
RULE = ("values of every typed header assembled from parts (numbers to 2^70, dates from 1970 to 2100, entity tags, methods, accept lists with weights, cache "
        "directives, cookies with hex, base64 and plain values, set-cookies with attributes, privacy policies, plain text of untyped headers) given to each copy; "
        "non-trivial = a value with at least two parts, or a number or date of more than one byte")
ASSUMPTIONS = ["numbers are decimal, dates in the RFC 1123 form (others, and dates before the epoch, become 0)",
               "documented losses: accept weights (order is kept), entity tags (digest only), cookie flags, the always suffix of a policy token, unknown policies, "
               "directives other than the measured ones", "a cookie crumb is name=value of token characters"]

NUM = st.one_of(st.integers(0, 300), st.sampled_from([0, 127, 128, 16383, 16384, 2 ** 21 - 1, 2 ** 21, 2 ** 28, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1]),
                st.integers(0, 2 ** 70))
TIME = st.one_of(st.integers(0, 4102444799), st.sampled_from([0, 631151999, 631152000, 631152127, 631152128, 951782400, 951868799, 1456704000, 1451606399, 1451606400]),
                 st.integers(1451606400, 1900000000))
TOK = st.text("abcdefXYZ0189_-", min_size=1, max_size=6)
CV = st.one_of(st.text("abcdefABCDEF0189", max_size=8), st.text("abcXYZ019+/", max_size=9), st.text("abcX019_-.:!*", max_size=9),
               st.sampled_from(["", "00", "ff00", "0", "abc", "abcd", "YQ==", "YWI=", "YWJj", "YWJjZA==", "a=b", "a==", "deadbeef", "deadbeeg", "12345678", "AbCd12=="]))
CVSAFE = CV.filter(lambda v: "=" not in v or v.rstrip("=").count("=") == 0)


def item(kind, parts, key, text):
    return [kind, key, text, parts]


@st.composite
def value(draw):
    kind = draw(st.sampled_from(["num", "date", "etag", "method", "accept", "cc", "cookie", "setcookie", "p3p", "plain"]))
    if kind == "num":
        ns = draw(st.one_of(st.lists(NUM, min_size=1, max_size=1), st.lists(NUM, min_size=1, max_size=3)))
        if draw(st.integers(0, 15)) == 0:
            return item(kind, [0], "content-length", "")
        return item(kind, ns, draw(st.sampled_from([":status", "content-length", "age"])), "\0".join(map(str, ns)))
    if kind == "date":
        key = draw(st.sampled_from(["last-modified", "date", "expires", "if-modified-since", "if-unmodified-since"]))
        how = draw(st.sampled_from(["date", "date", "date", "date", "num", "junk"]))
        if how == "date":
            t = draw(TIME)
            return item(kind, ["t", t], key, R.date_text(t))
        if how == "num":
            n = draw(st.one_of(st.integers(-5, 5), NUM))
            return item(kind, ["n", max(0, n)], key, str(n))
        return item(kind, ["n", 0], key, draw(st.sampled_from(["", "never", "Mon, 99 Foo 2010 00:00:00 GMT", "Monday, 01-Jan-07 00:00:00 GMT", "x"])))
    if kind == "etag":
        vs = draw(st.lists(st.one_of(TOK.map(lambda t: '"%s"' % t), st.text("abc\"W/ ,*-\xff", max_size=8)), min_size=1, max_size=3))
        return item(kind, vs, draw(st.sampled_from(["etag", "if-match", "if-none-match"])), "\0".join(vs))
    if kind == "method":
        m = draw(st.one_of(st.sampled_from(sorted(R.METHODS)), st.sampled_from(["GET", "head", "trace", "Put", "propfind", "gett", ""]), TOK))
        return item(kind, m, ":method", m)
    if kind == "accept":
        key = draw(st.sampled_from(["accept", "accept-language", "accept-encoding", "accept-charset"]))
        its = draw(st.lists(st.tuples(st.one_of(st.sampled_from(["gzip", "text/html", "en-us", "utf-8", "image/*", "deflate"]), TOK.filter(lambda t: t.lower() != "q")),
                                      st.sampled_from([None, None, None, 0, 1, 2, 3, 5, 8, 9, 10])), max_size=6))
        text = draw(st.sampled_from([",", ", "])).join(n if q is None else "%s;q=%s" % (n, "1" if q == 10 else "0.%d" % q if q else "0") for n, q in its)
        return item(kind, [list(x) for x in its], key, text)
    if kind == "cc":
        d, parts = {}, []
        for k in draw(st.permutations(["max-age", "max-stale", "min-fresh", "s-maxage", "no-cache", "private", "no-store"])):
            how = draw(st.integers(0, 2))
            if how == 0:
                continue
            if k in ("no-cache", "private"):
                if how == 1:
                    parts.append(k)
                else:
                    d[k] = draw(st.sampled_from(['"x"', "set-cookie", '"set-cookie"', "a"]))
                    parts.append("%s=%s" % (k, d[k]))
            elif k == "no-store" or (k == "max-stale" and how == 1):
                parts.append(k)
                d[k] = 1
            else:
                d[k] = draw(NUM)
                parts.append("%s=%d" % (k if draw(st.booleans()) else k.upper(), d[k]))
        return item(kind, d, "cache-control", draw(st.sampled_from([",", ", ", "\0"])).join(parts))
    if kind == "cookie":
        k, v = draw(TOK), draw(CV)
        return item(kind, [[k, v]], "cookie", "%s=%s" % (k, v))
    if kind == "setcookie":
        cs, texts = [], []
        for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
            c = {"name": draw(TOK.filter(lambda t: t.lower() not in ("path", "domain", "secure", "expires", "comment", "version"))), "value": draw(CVSAFE)}
            t = ["%s=%s" % (c["name"], c["value"])]
            for f, s in (("path", st.sampled_from(["/", "/a/b", "/" + "p" * 300])), ("domain", st.sampled_from([".example.com", "x.org"]))):
                if draw(st.booleans()):
                    c[f] = draw(s)
                    t.append("%s=%s" % (f, c[f]))
            how = draw(st.integers(0, 3))
            if how in (1, 3):
                c["expires"] = draw(TIME)
                t.append("expires=" + R.date_text(c["expires"]))
            if how in (2, 3):
                c["max-age"] = draw(NUM)
                t.append("max-age=%d" % c["max-age"])
            rest = draw(st.permutations(t[1:]))
            flags = draw(st.sampled_from([[], [], ["secure"], ["HttpOnly"], ["secure", "HttpOnly"]]))
            cs.append(c)
            texts.append("; ".join([t[0]] + list(rest) + flags))
        return item(kind, cs, "set-cookie", "\0".join(texts))
    if kind == "p3p":
        ref = draw(st.sampled_from([None, "/w3c/p3p.xml", "http://a.b/" + "x" * 130]))
        toks = draw(st.one_of(st.none(), st.lists(st.one_of(
            st.tuples(st.sampled_from(R.P3P), st.sampled_from(["", "", "a", "i", "o"])).map("".join),
            st.sampled_from(R.P3P)), min_size=1, max_size=8)))
        if toks and draw(st.integers(0, 5)) == 0:
            toks.insert(draw(st.integers(0, len(toks))), draw(st.sampled_from(["This", "XXX", "is"])))
        parts = []
        if ref is not None:
            parts.append('policyref="%s"' % ref)
        if toks is not None:
            parts.append('CP="%s"' % " ".join(toks))
        if draw(st.booleans()):
            parts.reverse()
        return item(kind, [ref, toks], "p3p", ", ".join(parts))
    v = draw(st.text("abc \0;=\xff,", max_size=10))
    return item("plain", v, draw(st.sampled_from(["x", "server", ":path", "dates", "Age", ""])), v)


def strategy():
    return st.tuples(st.sampled_from(COPIES), st.booleans(), st.lists(value(), min_size=1, max_size=4)).map(list)


def expected(copy, is_request, kind, parts):
    if kind == "num":
        return b"".join(R.uv(n) for n in parts)
    if kind == "date":
        return R.date_bytes(copy, parts[1]) if parts[0] == "t" else R.uv(parts[1])
    if kind == "etag":
        return R.etags(parts)
    if kind == "method":
        return bytes([R.METHODS[parts]]) if parts in R.METHODS else parts.encode("latin-1")
    if kind == "accept":
        kept = [(10 if q is None else q, n) for n, q in parts]
        kept = [x for x in sorted(kept, key=lambda x: -x[0]) if x[0] > 0]
        return "\0".join(n for _, n in kept).encode("latin-1")
    if kind == "cc":
        return R.cache_control(copy, is_request, parts)
    if kind == "cookie":
        return R.cookie(parts)
    if kind == "setcookie":
        return R.set_cookie(copy, parts)
    if kind == "p3p":
        return R.p3p(*parts)
    return parts.encode("latin-1")


def run(case, env):
    copy, is_request, items = case
    r = env.worker("jy").call("bohe_values", copy=copy, items=[[k, t] for _, k, t, _ in items], is_request=is_request)
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    big = False
    for (kind, key, text, parts), (how, got) in zip(items, r["ok"]):
        if how == "e":
            raise Violation("exception", "%s: %s: %r: %s" % (copy, key, text, got))
        want = expected(copy, is_request, kind, parts)
        got = got.encode("latin-1")
        if got != want:
            raise Violation("value", "%s (%s): %s: %r is encoded as %r, expected %r" % (
                copy, "request" if is_request else "response", key, text, got, want))
        big |= len(want) > 1 and (kind in ("num", "date") or len(parts) > 1)
    return {"nontrivial": big, "labels": [copy] + sorted({i[0] for i in items})}


TARGETS = [Target("values", strategy, run, 6000)]
