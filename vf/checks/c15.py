"""C15: the simple codec: round trip and an independent reader."""
import calendar
import email.utils
import re
import zlib

from hypothesis import strategies as st

from ..core import Target, Violation
from .. import gen
from .codec import drive, check_items, wires

RULE = ("histories of 1-10 messages, both directions, every option combination (date, seven / huffman, max_entries 0-5 or none), dates of all three HTTP forms, near-dates, "
        "fields repeated from the message before; every block also read by an independent reader (reference list, abbreviations, seven-bit or zlib transport) and "
        "generated conforming blocks given to the codec's decompressor; (c) seven-bit packing of any ASCII text; "
        "non-trivial = a field repeated from the message before, or a date option with a date field")
ASSUMPTIONS = ["values are trimmed; with seven they are ASCII", "the reason phrase and the HTTP version are not sent (documented)",
               "a date may come back in another form of the same instant", "the bitarray extension is not available here: a list-based stand-in with the methods the codec uses"]

SHORT = {
    'x-content-type-options': 'xct', 'content-encoding': 'ce', 'access-control-allow-origin': 'ac', 'content-type': 'ct',
    'accept-language': 'al', 'accept-encoding': 'ae', 'accept-ranges': 'ar', 'user-agent': 'ua', 'server': 's', 'referer': 'r',
    'accept': 'a', 'cookie': 'c', 'last-modified': 'lm', 'cache-control': 'cc', 'pragma': 'p', 'vary': 'v', 'date': 'd',
    'expires': 'x', 'content-length': 'cl', 'etag': 'e', 'content-language': 'la', 'via': 'vi', 'set-cookie': 'sc', 'p3p': 'p3',
    'if-modified-since': 'ims', 'if-none-match': 'inm', ':host': 'h'}
LONG = {v: k for k, v in SHORT.items()}
DATES = ["last-modified", "if-modified-since", "date", "expires"]
DROPPED = [":status-text", ":version"]

MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
DAYS = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()


def show(t, form):
    """An instant (seconds) in one of the HTTP date forms, or plainly."""
    y, mo, d, h, mi, s, wd = email.utils.datetime.datetime.fromtimestamp(t, email.utils.datetime.timezone.utc).timetuple()[:7]
    day, clock = DAYS[wd], "%02d:%02d:%02d" % (h, mi, s)
    if form == 0:
        return "%s, %02d %s %04d %s GMT" % (day[:3], d, MONTHS[mo - 1], y, clock)
    if form == 1:
        return "%s, %02d-%s-%02d %s GMT" % (day, d, MONTHS[mo - 1], y % 100, clock)
    return "%s %s %2d %s %04d" % (day[:3], MONTHS[mo - 1], d, clock, y)


def instant(v):
    """The instant a value of one of the three forms denotes, else None."""
    m = (re.fullmatch(r"(?P<w>[A-Z][a-z]{2}), (?P<d>\d\d) (?P<m>[A-Z][a-z]{2}) (?P<y>\d{4}) (?P<t>\d\d:\d\d:\d\d) GMT", v) or
         re.fullmatch(r"(?P<w>[A-Z][a-z]{5,8}), (?P<d>\d\d)-(?P<m>[A-Z][a-z]{2})-(?P<y>\d\d) (?P<t>\d\d:\d\d:\d\d) GMT", v) or
         re.fullmatch(r"(?P<w>[A-Z][a-z]{2}) (?P<m>[A-Z][a-z]{2}) (?P<d>[ \d]\d) (?P<t>\d\d:\d\d:\d\d) (?P<y>\d{4})", v))
    if not m or m["m"] not in MONTHS:
        return None
    y = int(m["y"])
    if y < 100:
        y += 1900 if y > 68 else 2000
    return calendar.timegm((y, MONTHS.index(m["m"]) + 1, int(m["d"])) + tuple(map(int, m["t"].split(":"))))


def canon(pairs, dates):
    out = {}
    for k, v in (pairs.items() if isinstance(pairs, dict) else pairs):
        if k in DROPPED:
            continue
        if dates and k in DATES and instant(v) is not None:
            out[k] = ("instant", instant(v))
        else:
            out[k] = tuple(v.split("\0"))
    return out


instants = st.one_of(st.integers(0, 2 ** 31 - 1), st.sampled_from([0, 1, 784111777, 1382386401, 951782400, 2 ** 31 - 1, 2 ** 31]), st.integers(0, 3 * 10 ** 9))
notdate = st.sampled_from(["0", "-1", "", "abc", "dead", "1f", "0x10", "Mon, 32 Foo 2013", "Thu, 01 Jan 1970", "now", "12:00", "beef\x00face", "1_0", "+5",
                           "Mon, 21 Oct 2013 20:13:21 EST", "Mon, 21 Oct 2013 20:13:21 GMT\x00Mon, 21 Oct 2013 20:13:22 GMT", "Mon, 1 Oct 2013 20:13:21 GMT"])


@st.composite
def a_date(draw):
    form = draw(st.sampled_from([0, 0, 0, 1, 2]))
    t = draw(instants)
    if form == 1:                   # two-digit years denote 1969..2068
        t %= 2 ** 31
    return show(t, form)


dateish = st.one_of(a_date(), a_date(), notdate)


@st.composite
def options(draw):
    p = draw(st.sampled_from([[], [], ["seven"], ["huffman"]]))[:]
    if draw(st.booleans()):
        p.append("date")
    if draw(st.booleans()):
        p.append("max_entries=%d" % draw(st.integers(0, 5)))
    return draw(st.permutations(p))


@st.composite
def case(draw):
    opt, req = draw(options()), draw(st.booleans())
    ascii_ = gen.raw_value()
    vals = ascii_ if "seven" in opt else st.one_of(ascii_, gen.latin_value(), gen.long_value(40, 300))
    vals = gen.huge(draw, vals, 9000)
    names = st.one_of(st.sampled_from(sorted(k for k in SHORT if k[0] != ":")), gen.name(), st.sampled_from(["ref", "h", "ct", "d", "!", "!x", "host", "x"]))
    msgs = draw(gen.history(req, max_msgs=10, values=vals, names=names, pool=5))
    for m in msgs:
        for f in draw(st.lists(st.sampled_from(DATES), max_size=2, unique=True)):
            v = draw(dateish)
            for h in m:
                if h[0] == f:
                    h[1] = v
                    break
            else:
                m.append([f, v])
        if draw(st.integers(0, 3)) == 0:
            m.insert(0, [":version", "HTTP/1.1"])
        if not req and draw(st.integers(0, 3)) == 0:
            m.append([":status-text", "Not Found"])
    for i in range(1, len(msgs)):               # carry some fields over
        if draw(st.integers(0, 2)):
            have = set(k for k, _ in msgs[i])
            msgs[i] = msgs[i] + [list(p) for p in msgs[i - 1] if p[0] not in have and draw(st.booleans())]
    return {"req": req, "opt": opt, "msgs": msgs}


def entries(opt):
    for o in opt:
        if o.startswith("max_entries="):
            return int(o[12:])
    return 10 ** 9


class Transport(object):
    def __init__(self, opt):
        self.seven, self.huffman = "seven" in opt, "huffman" in opt
        self.z, self.c = zlib.decompressobj(), zlib.compressobj(6, zlib.DEFLATED, 15, 8, zlib.Z_HUFFMAN_ONLY)

    def read(self, data):
        if self.seven:
            bits = "".join(format(b, "08b") for b in data)
            n = len(bits) // 7
            out = bytes(int(bits[i * 7:i * 7 + 7], 2) for i in range(n))
            if "1" in bits[n * 7:]:
                raise Violation("seven", "bits left over: %r" % data)
            data = out[:-1] if out.endswith(b"\0") else out
        elif self.huffman:
            try:
                data = self.z.decompress(data)
            except zlib.error as e:
                raise Violation("deflate", str(e))
        return data.decode("latin-1")

    def write(self, text):
        data = text.encode("latin-1")
        if self.seven:
            bits = "".join(format(b, "07b") for b in data)
            bits += "0" * (-len(bits) % 8)
            return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
        if self.huffman:
            return self.c.compress(data) + self.c.flush(zlib.Z_SYNC_FLUSH)
        return data


def read_text(text, req):
    """-> (pseudo headers of the top line, [(name, value)])"""
    if not text.endswith("\n\n"):
        raise Violation("text", "no blank line at the end of %r" % text)
    lines = text[:-2].split("\n")
    top = lines[0].split(" ", 2)
    if len(top) != 3:
        raise Violation("text", "top line %r" % lines[0])
    fields = []
    for line in lines[1:]:
        i = line.find(":", 1)
        if i < 1:
            raise Violation("text", "line %r" % line)
        fields.append((line[:i], line[i + 1:]))
    return ({":method": top[0], ":path": top[1]} if req else {":status": top[1]}), fields


def run(c, env):
    items = drive(env, "jy", name="simple", is_request=c["req"], params=c["opt"], msgs=c["msgs"])
    dates = "date" in c["opt"]
    check_items(c["msgs"], items, lambda m: canon(m, dates))
    tr, last, given = Transport(c["opt"]), {}, {}
    repeats = 0
    for i, w in enumerate(wires(items)):
        out, fields = read_text(tr.read(w), c["req"])
        m = gen.as_dict(c["msgs"][i])
        refs = []
        for k, v in fields:
            if k == "ref":
                refs.append(v)
                continue
            if k in LONG:
                name = LONG[k]
                if dates and name in DATES:
                    try:
                        v = show(int(v, 16), 0)
                    except (ValueError, OverflowError):
                        raise Violation("reader", "message %d: %r is no date" % (i, v))
            elif k[0] == "!":
                name = k[1:]
            else:
                name = k
            out[name] = out[name] + "\0" + v if name in out else v
        same = [k for k in m if (k[0] != ":" or k == ":host") and given.get(k) == m[k]]
        repeats += len(same)
        if len(refs) > 1:
            raise Violation("reader", "message %d: two ref lines" % i)
        refs = refs[0].split(",") if refs else []
        for r in refs:
            name = LONG[r] if r in LONG else r[1:] if r[0] == "!" else r
            if name not in last or name in out:
                raise Violation("reader", "message %d: bad reference %r" % (i, r))
            out[name] = last[name]
        if canon(out, dates) != canon(m, dates):
            raise Violation("reader", "message %d: an independent reader has %r, expected %r" % (i, out, m))
        if len(refs) != min(entries(c["opt"]), len(same)):
            raise Violation("references", "message %d: %d references, %d fields are unchanged" % (i, len(refs), len(same)))
        last, given = out, m
    n = sum(k in DATES and instant(v) is not None for m in c["msgs"] for k, v in m)
    return {"nontrivial": repeats > 0 or (dates and n > 0),
            "labels": [o.split("=")[0] for o in c["opt"]] + (["dates"] if n else []) + (["repeats"] if repeats else [])}


def run_accept(c, env):
    """Blocks written by an independent encoder; c["pick"] decides which
    unchanged fields it references."""
    tr, prev, frames = Transport(c["opt"]), {}, []
    dates = "date" in c["opt"]
    k = 0
    for m in c["msgs"]:
        d = gen.as_dict(m)
        lines, refs = [], []
        for name, v in m:
            if name in (":method", ":path", ":status", ":version", ":status-text"):
                continue
            k += 1
            if name in prev and canon({name: prev[name]}, dates) == canon({name: d[name]}, dates) and c["pick"][k % len(c["pick"])] and (name[0] != ":" or name == ":host"):
                refs.append(SHORT.get(name, "!" + name))
                continue
            if dates and name in DATES:
                t = instant(v)
                short, vs = ("!" + name, v.split("\0")) if t is None else (SHORT[name], ["%x" % t])
            else:
                short, vs = (name if name[0] == ":" and name != ":host" else SHORT.get(name, "!" + name)), v.split("\0")
            lines += ["%s:%s" % (short, x) for x in vs]
        if refs:
            lines.insert(c["at"] % (len(lines) + 1), "ref:" + ",".join(refs))
        top = "%s %s H/2" % (d[":method"], d[":path"]) if c["req"] else "H/2 %s ?" % d[":status"]
        frames.append(tr.write("\n".join([top] + lines) + "\n\n"))
        prev = d
    r = env.worker("jy").call("codec_decode", name="simple", is_request=c["req"], params=c["opt"], frames=[f.decode("latin-1") for f in frames])
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    for i, m in enumerate(c["msgs"]):
        o = r["ok"][i]
        if "dec_exc" in o:
            raise Violation("decode-exception", "block %d: %r" % (i, o["dec_exc"]))
        if canon(o["dec"], dates) != canon(m, dates):
            raise Violation("decode", "block %d: %r, expected %r" % (i, o["dec"], m))
    return {"nontrivial": k > 0, "labels": ["accept"]}


@st.composite
def accept_case(draw):
    c = draw(case())
    c["pick"] = draw(st.lists(st.booleans(), min_size=1, max_size=7))
    c["at"] = draw(st.integers(0, 9))
    return c


def run_seven(c, env):
    r = env.worker("jy").call("seven", text=c)
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    enc, dec = r["ok"]
    want = Transport(["seven"]).write(c).decode("latin-1")
    if enc != want:
        raise Violation("seven-encode", "%r gives %r, expected %r" % (c, enc, want))
    if dec != c:
        raise Violation("seven", "%r comes back as %r" % (c, dec))
    return {"nontrivial": len(c) > 1, "labels": ["len%%8=%d" % (len(c) % 8)]}


seven_text = lambda: st.text(alphabet=[chr(i) for i in range(1, 128)], max_size=40)

TARGETS = [Target("history", case, run, 1600), Target("accept", accept_case, run_accept, 800), Target("seven", seven_text, run_seven, 600)]
