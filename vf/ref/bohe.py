"""Typed header value encodings as the bohe codecs document them, from values
given in parts (so that nothing is parsed here)."""
import base64
import datetime
import hashlib
import re

P3P = ("NOI ALL CAO IDC OTI NON DSP COR MON LAW NID CUR ADM DEV TAI PSA PSD IVA IVD CON HIS TEL OTP OUR DEL SAM UNR PUB OTR NOR STP LEG "
       "BUS IND PHY ONL UNI PUR FIN COM NAV INT DEM CNT STA POL HEA PRE LOC GOV OTC TST").split()
METHODS = dict(get=1, post=2, put=3, patch=4, delete=5, options=6, connect=7)
DAYS = "Mon Tue Wed Thu Fri Sat Sun".split()
MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()


def uv(n):
    """Seven bits per byte, low bits first, the high bit on all but the last."""
    out = bytearray()
    while True:
        if n < 128:
            out.append(n)
            return bytes(out)
        out.append(n & 127 | 128)
        n >>= 7


def epoch(copy):
    y = 1990
    if copy == "delta2_bohe":
        y = datetime.datetime.utcnow().year
        y -= y % 21
    return (datetime.datetime(y, 1, 1) - datetime.datetime(1970, 1, 1)).days * 86400


def date_text(t):
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    return "%s, %02d %s %04d %02d:%02d:%02d GMT" % (DAYS[d.weekday()], d.day, MONTHS[d.month - 1], d.year, d.hour, d.minute, d.second)


def date_bytes(copy, t):
    return uv(max(0, t - epoch(copy)))


def content(v):
    """Cookie values that spell bytes in hex or base64 are sent as those bytes."""
    if re.fullmatch(r"(?:[0-9a-fA-F]{2})*", v):
        return bytes.fromhex(v)
    if re.fullmatch(r"(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?", v):
        return base64.b64decode(v)
    return v.encode("latin-1")


def lb(s):
    s = s if isinstance(s, bytes) else s.encode("latin-1")
    return uv(len(s)) + s


def etags(vals):
    return uv(len(vals)) + b"".join(b"\x10" + hashlib.md5(v.encode("latin-1")).digest() for v in vals)


def cookie(pairs):
    return b"".join(b"_" + lb(k) + lb(content(v)) for k, v in pairs)


def set_cookie(copy, cookies):
    out = []
    for c in cookies:
        r = b"." + lb(c["name"]) + lb(content(c["value"]))
        for f in ("path", "domain"):
            r += len(c.get(f, "")).to_bytes(2, "big") + c.get(f, "").encode("latin-1")
        if c.get("max-age") is not None:
            r += uv(c["max-age"])
        elif c.get("expires") is not None:
            r += date_bytes(copy, c["expires"])
        else:
            r += uv(0)
        out.append(r)
    return b"\x00".join(out)


def cache_control(copy, is_request, d):
    r = b"_" + uv(d.get("max-age", 0))
    if is_request:
        return r + uv(d.get("max-stale", 0)) + uv(d.get("min-fresh", 0)) + uv(0)
    r += uv(d.get("s-maxage", 0))
    for k in ("no-cache", "private"):
        if isinstance(d.get(k), str) and d[k]:
            r += uv(1) + lb(d[k])
        else:
            r += uv(0)
    return r + uv(0)


def p3p(ref, tokens):
    r = lb(ref or "")
    cp = b""
    for t in tokens or []:
        if t[:3] not in P3P:
            return r
        cp += bytes([(P3P.index(t[:3]) + 1) << 2 | ("aio".index(t[3]) if len(t) == 4 else 0)])
    return r + cp
