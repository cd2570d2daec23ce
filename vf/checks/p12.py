"""P12: the C++ benchmark measures what it says."""
import os
import random
import re
import shutil
import tempfile
import zlib

from hypothesis import strategies as st

from .. import cpp
from ..core import HarnessError, Target, VERIF, Violation
from . import p09

RULE = ("header sets of every size (arbitrary bytes, up to 60 KB of random ones) framed by the program's SPDY/3 side and read back by an independent reader; "
        "both measuring loops under a clock that the case sets, against the same codecs driven directly; clock readings; summaries; HAR text of any length "
        "through a pipe whose reads are cut short or interrupted; the whole program, on both copies under AddressSanitizer and UBSan; non-trivial = two frames or more of which one has fields, "
        "two iterations or more, readings that cross a second, a text longer than one read of the pipe, or two requests or more")
ASSUMPTIONS = ["the clock never runs backwards", "a stand-in for harfile_translator.py writes the text (the one that comes along cannot run)",
               "an empty block at the very end of the text may be reported or left out"]
prepare = cpp.prepare_bench

DICT = open(os.path.join(VERIF, "vf", "ref", "spdy3_dictionary.bin"), "rb").read()
TEXT = st.one_of(st.sampled_from([":path", "cookie", "user-agent", "", "GET", "/", "200"]), st.text("ab:;= \x00\xff", max_size=6),
                 st.text(st.characters(max_codepoint=255), max_size=12))


def ask(env, copy, line):
    r = cpp.ask(env, copy, line)
    if isinstance(r, dict) and "died" in r:
        raise Violation("crash", "%s: the process ended with status %d" % (copy, r["died"]))
    return r


def noise(seed, n):
    r = random.Random(seed)
    return "".join(map(chr, r.getrandbits(8 * n).to_bytes(n, "big"))) if n else ""


VALUE = st.one_of(TEXT, TEXT, TEXT, st.tuples(st.integers(0, 99), st.integers(0, 3000)).map(lambda t: noise(*t)),
                  st.tuples(TEXT, st.integers(0, 400)).map(lambda t: t[0] * t[1]))
BIG = st.tuples(st.integers(0, 99), st.one_of(st.integers(0, 60000), st.sampled_from([16383, 16384, 32768, 65536]))).map(lambda t: noise(*t))
FRAME = st.lists(st.tuples(TEXT, VALUE).map(list), max_size=6)


def frames(big=True):
    fs = st.lists(FRAME, max_size=6)
    if not big:
        return fs
    return st.one_of(fs, fs, fs, st.tuples(fs, BIG, fs).map(lambda t: t[0] + [[["x", t[1]]]] + t[2]))


def give(fs):
    return "%d %s" % (len(fs), " ".join("%d %s" % (len(f), " ".join(cpp.hx(x.encode("latin-1")) for kv in f for x in kv)) for f in fs))


def block(data):
    """The fields of an uncompressed SPDY/3 header block."""
    def number():
        nonlocal at
        if len(data) < at + 4:
            raise ValueError("ends early")
        at += 4
        return int.from_bytes(data[at - 4:at], "big")

    def string():
        nonlocal at
        n = number()
        if len(data) < at + n:
            raise ValueError("ends early")
        at += n
        return data[at - n:at].decode("latin-1")
    at = 0
    out = [[string(), string()] for _ in range(number())]
    if at != len(data):
        raise ValueError("%d bytes too many" % (len(data) - at))
    return out


def run_spdy3(case, env):
    copy, together, fs = case
    got = ask(env, copy, "spdy3 %d %s" % (together, give(fs)))
    inflater = zlib.decompressobj(zdict=DICT)
    for i, (f, h) in enumerate(zip(fs, got)):
        data = bytes.fromhex(h)
        where = "%s: frame %d of %d" % (copy, i + 1, len(fs))
        if data[:5] != b"\x80\x03\x00\x08\x00" or data[8:12] != b"\x00\x00\x00\x01":
            raise Violation("frame header", "%s begins %s" % (where, data[:12].hex()))
        n = int.from_bytes(data[5:8], "big")
        if n != len(data) - 8:
            raise Violation("length", "%s says that %d bytes follow; %d do" % (where, n, len(data) - 8))
        try:
            text = inflater.decompress(data[12:])
            read = block(text)
        except (zlib.error, ValueError) as e:
            raise Violation("header block", "%s does not read: %s" % (where, e))
        if read != f:
            raise Violation("headers", "%s reads as %s" % (where, str(read)[:600]))
        if inflater.unconsumed_tail or inflater.unused_data:
            raise Violation("header block", "%s has bytes to spare" % where)
    if len(got) != len(fs):
        raise Violation("frames", "%d frames for %d header sets" % (len(got), len(fs)))
    return {"nontrivial": len(fs) > 1 and any(fs), "labels": [copy, "together" if together else "apart"]}


def step(n):
    """A clock that moves on by this many nanoseconds with each reading ends
    the ten seconds after about n readings."""
    return -(-10 ** 10 // (n + 1))


def spent(copy, secs, iterations, n):
    if abs(iterations - n) > 1 or iterations < 1:
        raise Violation("iterations", "%s: %d iterations are reported where time is up after %d" % (copy, iterations, n))
    if not 10 - 1e-3 <= secs <= 10 + 3 * step(n) / 1e9 + 1e-3:
        raise Violation("time", "%s: %r seconds are reported where each reading takes %r" % (copy, secs, step(n) / 1e9))


def run_bench(case, env):
    copy, which, n, fs = case
    iterations, compressed, want, elapsed = ask(env, copy, "bench %d %d %s" % (which, step(n), give(fs)))
    spent(copy, elapsed, iterations, n)
    if compressed != want:
        raise Violation("compressed size", "%s: spdy%d: %d bytes are reported; the same frames make %d" % (copy, which, compressed, want))
    return {"nontrivial": iterations > 1 and any(fs), "labels": [copy, "spdy%d" % which]}


NSEC = st.one_of(st.integers(0, 999999999), st.sampled_from([0, 1, 999999999, 500000000]))


def s_timer():
    steps = st.lists(st.tuples(st.one_of(st.just(0), st.just(0), st.integers(0, 2), st.integers(0, 100000)), NSEC), min_size=1, max_size=8)
    return st.tuples(st.sampled_from(cpp.COPIES), st.tuples(st.integers(0, 10 ** 6), NSEC), steps).map(lambda c: [c[0], list(c[1]), [list(s) for s in c[2]]])


def run_timer(case, env):
    copy, (sec, ns), steps = case
    times = [(sec, ns)]
    for ds, dn in steps:
        s, n = times[-1]
        # on by that much; the nanoseconds alone never go back
        if ds == 0:
            n = max(n, dn)
        else:
            s, n = s + ds, dn
        times.append((s, n))
    later = times + [(times[-1][0] + 7, 5)]
    got = ask(env, copy, "timer %d %s" % (len(later), " ".join("%d %d" % t for t in later)))
    want = [(s - sec) + (n - ns) / 1e9 for s, n in times[1:]]
    want.append(want[-1])
    if len(got) != len(want) or any(abs(g - w) > 1e-6 for g, w in zip(got, want)):
        raise Violation("time", "%s: readings %r after %r give %r, expected %r" % (copy, times[1:], times[0], got, want))
    return {"nontrivial": any(n < ns for _, n in times[1:]), "labels": [copy]}


NUM = r"([-+0-9.e]+|inf|nan)"
SHOWN = re.compile(r"\A\s*#+ (.*) #+\nCompression took: %s seconds for: (\d+)\*(\d+) header frames \((\d+) total header frames\) "
                   r"or %s headers/sec or %s bytes/sec\nCompression ratio: %s = compressed bytes\((\d+)\) / uncompressed_bytes\((\d+)\)\n"
                   % (NUM, NUM, NUM, NUM), re.S)


def close(got, want):
    return abs(float(got) - want) <= max(1e-6, abs(want) * 2e-5)


def shown(copy, text):
    m = SHOWN.match(text)
    if not m:
        raise Violation("unreadable", "%s: %r" % (copy, text))
    return m


def check_summary(copy, text, name, secs, iterations, count, compressed, uncompressed):
    m = shown(copy, text)
    title, took, it, n, total, hps, bps, ratio, cb, ub = m.groups()
    want = [name, iterations, count, iterations * count, compressed, uncompressed * iterations]
    got = [title, int(it), int(n), int(total), int(cb), int(ub)]
    if want != got:
        raise Violation("summary", "%s: %r, expected %r (%r)" % (copy, got, want, text))
    for what, g, w in (("seconds", took, secs), ("headers/sec", hps, count * iterations / secs),
                       ("bytes/sec", bps, uncompressed * iterations / secs),
                       ("ratio", ratio, compressed / (uncompressed * iterations))):
        if not close(g, w):
            raise Violation(what, "%s: %s is shown as %s, expected %r (%r)" % (copy, what, g, w, text))
    return text[m.end():]


def s_summary():
    n = st.one_of(st.integers(1, 40), st.integers(1, 10 ** 6))
    return st.tuples(st.sampled_from(cpp.COPIES), st.sampled_from(["spdy4", "spdy3", "x"]), st.one_of(st.integers(0, 10 ** 9), st.integers(0, 2 ** 40)),
                     st.one_of(st.integers(1, 200), st.integers(1, 10 ** 6)).map(lambda k: k / 16), n, st.integers(1, 10 ** 7), n, st.booleans()).map(list)


def run_summary(case, env):
    copy, name, compressed, secs, iterations, uncompressed, count, twice = case
    text = bytes.fromhex(ask(env, copy, "summary %s %d %r %d %d %d %d" % (
        cpp.hx(name.encode()), compressed, secs, iterations, uncompressed, count, twice))).decode("latin-1")
    left = check_summary(copy, text, name, secs, iterations, count, compressed, uncompressed)
    if left.strip():
        raise Violation("unreadable", "%s: %r" % (copy, text))
    return {"nontrivial": iterations > 1 and count > 1, "labels": [copy, "later" if twice else "first"]}


class Files(object):
    """A directory with the files and a translator that prints them."""
    def __init__(self, env, texts):
        self.dir = tempfile.mkdtemp(prefix="har-", dir=env.scratch)
        self.names = ["f%d.har" % i for i in range(len(texts))]
        for n, t in zip(self.names, texts):
            with open(os.path.join(self.dir, n), "wb") as f:
                f.write(t.encode("latin-1"))
        p = os.path.join(self.dir, "harfile_translator.py")
        with open(p, "w") as f:
            f.write("#!/bin/sh\nfor f; do cat -- \"$f\"; done\n")
        os.chmod(p, 0o755)

    def __enter__(self):
        return "%s %d %s" % (cpp.hx(self.dir.encode()), len(self.names), " ".join(cpp.hx(n.encode()) for n in self.names))

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


LONG = st.tuples(p09.NAME, st.one_of(p09.VALUE, st.tuples(st.sampled_from(["v", "ab", "a=1\x00b=2\x00", "\xff"]), st.integers(0, 400)).map(lambda t: t[0] * t[1])))
FIELDS = st.lists(LONG.map(list), min_size=1, max_size=5)


@st.composite
def texts(draw, proper):
    """Text of whole files: pairs of a request and a response."""
    files = []
    for _ in range(draw(st.integers(1, 3))):
        t = ""
        for _ in range(draw(st.integers(1 if proper else 0, 3))):
            for _ in (0, 1):
                t += "".join("%s: %s\n" % tuple(kv) for kv in draw(FIELDS)) + "\n"
        files.append(t)
    if not proper and draw(st.integers(0, 3)) == 0:
        files[-1] += draw(st.sampled_from(["n: v", "n", ": ", "\n", "x:y\n"]))
    return files


# How much each read of the pipe gets: 0 means that it is interrupted.
CUTS = st.one_of(st.just([]), st.tuples(st.lists(st.one_of(st.sampled_from([0, 1, 254, 255, 256]), st.integers(0, 300)), max_size=4), st.integers(20, 300)).map(
    lambda t: t[0] + [t[1]]))


def numbers(ns):
    return " ".join(map(str, [len(ns)] + ns))


def run_har(case, env):
    copy, files, cuts = case
    text = "".join(files)
    with Files(env, files) as where:
        r = ask(env, copy, "har %s %s" % (numbers(cuts), where))
    want, _ = p09.reference(text)
    if want is None:
        if r["r"]:
            raise Violation("malformed", "%s: reports %d for the malformed text %r" % (copy, r["r"], text))
        return {"nontrivial": len(text) > 255, "labels": [copy, "malformed"]}
    if not r["r"]:
        raise Violation("refused", "%s: reports failure for the well-formed text %r" % (copy, text))
    for kind, k in (("req", 0), ("resp", 1)):
        got = [[[bytes.fromhex(a).decode("latin-1"), bytes.fromhex(b).decode("latin-1")] for a, b in f] for f in r[kind]]
        if p09.trim(got) != p09.trim(want[k::2]):
            raise Violation("headers", "%s: %s of %r gives %r, expected %r" % (copy, kind, text[:600], str(got)[:600], str(want[k::2])[:600]))
    return {"nontrivial": len(text) > 255, "labels": [copy, "files-%d" % len(files)]}


def run_report(case, env):
    copy, n, files, cuts = case
    with Files(env, files) as where:
        r = ask(env, copy, "report %d %s %s" % (step(n), numbers(cuts), where))
    text = bytes.fromhex(r).decode("latin-1")
    reqs = [b for b in p09.reference("".join(files))[0][0::2] if b]
    size = sum(len(k) + len(v) for f in reqs for k, v in f)
    at = [m.start() for m in re.finditer(r"#+ spdy[34] #+\n", text)]
    if len(at) != 2:
        raise Violation("unreadable", "%s: %r" % (copy, text))
    for which, part in ((4, text[at[0]:at[1]]), (3, text[at[1]:])):
        m = shown(copy, part)
        secs, iterations = float(m.group(2)), int(m.group(3))
        spent(copy, secs, iterations, n)
        got, _, want, _ = ask(env, copy, "bench %d %d %s" % (which, step(n), give(reqs)))
        if got == iterations:
            check_summary(copy, part, "spdy%d" % which, secs, iterations, len(reqs), want, size)
    return {"nontrivial": len(reqs) > 1, "labels": [copy]}


COPY = st.sampled_from(cpp.COPIES)
TARGETS = [
    Target("spdy3", lambda: st.tuples(COPY, st.integers(0, 1), frames()).map(list), run_spdy3, 1500),
    Target("bench", lambda: st.tuples(COPY, st.sampled_from([3, 4]), st.integers(1, 4), frames(False)).map(list), run_bench, 600),
    Target("timer", s_timer, run_timer, 1000),
    Target("summary", s_summary, run_summary, 1000),
    Target("har", lambda: st.tuples(COPY, texts(False), CUTS).map(list), run_har, 600),
    Target("report", lambda: st.tuples(COPY, st.integers(1, 3), texts(True), CUTS).map(list), run_report, 300),
]
