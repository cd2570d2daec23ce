"""P11: the debugging helpers show exactly what they are given, and change nothing."""
import ast
import re

from hypothesis import strategies as st

from .. import cpp, gen
from ..core import Target, Violation
from . import p02, p04

COPIES = ["delta", "delta2", "bohe", "delta_bohe", "delta2_bohe"]
OPS = ["delta", "delta2", "delta_bohe", "delta2_bohe"]
RULE = ("bit strings of 0-80 bits, code tables of 2-257 symbols, operations of every kind with values of arbitrary bytes, byte strings and histories traced by delta2, "
        "dumped by every copy of the helpers and read back; non-trivial = a bit string that is no whole number of bytes, a table with code words of several lengths, "
        "a value that needs escaping, two lines of bytes, or a history whose frames have operations of two kinds")
ASSUMPTIONS = ["a bit string holds exactly the bytes its bit count needs", "C++ words are asked for no more bits than they have"]


def prepare(scratch):
    return cpp.prepare(scratch)


def groups(bits, offset=0):
    return "".join(("|" if (i + offset) % 8 == 0 else "") + str(b) for i, b in enumerate(bits))


def pack(bits):
    bits = list(bits) + [0] * (-len(bits) % 8)
    return [int("".join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8)]


def differ(kind, got, want):
    if got != want:
        raise Violation(kind, "%r, expected %r" % (got, want))


def call(env, op, **args):
    r = env.worker("jy").call(op, **args)
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    return r["ok"]


BITS = st.lists(st.integers(0, 1), max_size=80)
ANY = st.text(st.characters(max_codepoint=255), max_size=8)


def run_bits(c, env):
    copy, bits, read, text = c
    read = min(read, len(bits))
    want = groups(bits)
    got = call(env, "dumps", copy=copy, items=[["bits", pack(bits), len(bits)], ["bucket", bits, read], ["readable", text]])
    differ("bits", got[0], want + " [%d]" % len(bits))
    if not re.match(re.escape(want) + r" \[\d+\]$", got[1][0]):
        raise Violation("bucket", "%r, expected %r" % (got[1][0], want))
    if not got[1][1].startswith(got[1][0] + "\n"):
        raise Violation("debug format", "%r does not begin with %r" % (got[1][1], got[1][0]))
    back, left = "", got[2]
    while left:
        m = re.match(r"   (.) |0x([0-9a-f]{2}) ", left, re.S)
        if not m or m.group(1) and not 32 <= ord(m.group(1)) <= 126 and m.group(1) != "\t":
            raise Violation("readable", "%r for %r" % (got[2], text))
        back += m.group(1) or chr(int(m.group(2), 16))
        left = left[m.end():]
    differ("readable", back, text)
    return {"nontrivial": len(bits) % 8 > 0, "labels": [copy]}


def symbol(text):
    """The symbol that ReadableUShort shows."""
    m = re.match(r"^(?:([0-9]+)| '(?:([ -~])|\\([tnr0])|\\x([0-9a-f]{2}))')$", text)
    if not m:
        raise Violation("symbol", "unreadable: %r" % text)
    number, char, esc, code = m.groups()
    return int(number) if number else ord(char) if char else {"t": 9, "n": 10, "r": 13, "0": 0}[esc] if esc else int(code, 16)


def run_table(c, env):
    copy, freqs = c
    (words, text), = call(env, "dumps", copy=copy, items=[["table", freqs]])
    lines = text.split("\n")
    differ("lines", len(lines), len(freqs))
    for i, (w, l) in enumerate(zip(words, lines)):
        m = re.match(r"^(     |  '(.)') +\( *(\d+)\):? +(\S+) \[(\d+)\](.*)$", l, re.S)
        if not m:
            raise Violation("table line", "%r" % l)
        differ("symbol", int(m.group(3)), i)
        if (32 <= i <= 126) != bool(m.group(2)) or m.group(2) and ord(m.group(2)) != i:
            raise Violation("character", "%r is shown for symbol %d" % (m.group(1), i))
        differ("code word", m.group(4), groups(w))
        differ("length", int(m.group(5)), len(w))
        if m.group(6):
            t = re.match(r"^ +([0-9a-f]+) \[(\d+)\]$", m.group(6))
            if not t or int(t.group(2)) != len(w):
                raise Violation("table line", "%r" % l)
            differ("code value", int(t.group(1), 16), int(w or "0", 2))
    return {"nontrivial": len({len(w) for w in words}) > 1, "labels": [copy]}


@st.composite
def operation(draw):
    kind = draw(st.sampled_from(["toggl", "trang", "clone", "kvsto", "eref", "stoggl", "sclone", "ekvsto"]))
    o = {"opcode": kind}
    if "togg" in kind or kind == "trang":
        o["index"] = draw(st.integers(0, 70000))
    if kind == "trang":
        o["index_start"] = draw(st.integers(0, 70000))
    if kind == "clone":
        o["key_idx"] = draw(st.integers(0, 70000))
    if kind == "sclone":
        o["index"] = draw(st.integers(0, 70000))
    if kind in ("kvsto", "eref", "ekvsto"):
        o["key"] = draw(ANY)
    if "clone" in kind or "key" in o:
        o["val"] = draw(ANY)
    if draw(st.integers(0, 3)) == 0:
        o["huff"] = draw(st.integers(0, 1))
    return o


@st.composite
def ops_case(draw):
    ops = draw(st.lists(operation(), max_size=5))
    if draw(st.booleans()):
        d = {}
        for o in ops:
            d.setdefault(o["opcode"], []).append(o)
        ops = d
    return [draw(st.sampled_from(OPS)), ops, draw(st.sampled_from([None, "", "MO\t", "> "])), draw(operation()), draw(st.lists(st.integers(0, 255), max_size=70))]


def literal(text):
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        raise Violation("operation", "unreadable: %r" % text)


def hexdump(data):
    out = []
    for i in range(0, len(data), 16):
        part = data[i:i + 16]
        out.append("%-47s | %s" % (" ".join("%02X" % b for b in part), "".join(chr(b) if 32 <= b <= 126 else "." for b in part)))
    return "\n".join(out)


def run_ops(c, env):
    copy, ops, prefix, one, data = c
    items = [["op", one], ["ops", ops, prefix]] + ([["hex", data]] if copy == "delta2" else [])
    got = call(env, "dumps", copy=copy, items=items)
    differ("operation", literal(got[0]), one)
    lines = got[1].split("\n")
    if lines[-1]:
        raise Violation("operations", "the text ends within a line: %r" % lines[-1])
    back = []
    for l in lines[:-1]:
        if not l.startswith(prefix or ""):
            raise Violation("prefix", "%r does not begin with %r" % (l, prefix))
        back.append(literal(l[len(prefix or ""):].strip(" ")))
    if isinstance(ops, dict):
        d = {}
        for o in back:
            d.setdefault(o["opcode"], []).append(o)
        back = d
    differ("operations", back, ops)
    if copy == "delta2":
        differ("bytes", got[2], hexdump(data))
    return {"nontrivial": bool(re.search(r"[^ -~]|'", one.get("val", "") + one.get("key", ""))) or copy == "delta2" and len(data) > 16,
            "labels": [copy, "by kind" if isinstance(ops, dict) else "list"]}


@st.composite
def trace_case(draw):
    req = draw(st.booleans())
    params = draw(st.sampled_from([[], ["hg_adjust=1"], ["implicit_hg_add=1"], ["only_etoggles=1"], ["small_index=0"], ["varint_encoding=0"], ["idx_from_end=0"]]))
    return [req, params, draw(gen.history(req, max_msgs=5))]


def run_trace(c, env):
    req, params, msgs = c
    kinds = set()
    for i, o in enumerate(call(env, "traced", is_request=req, params=params, msgs=msgs)):
        where = "message %d of %d: " % (i, len(msgs))
        if o["silence"]:
            raise Violation("silence", where + "printed %r unasked" % o["silence"])
        if o["silent"] != o["traced"]:
            raise Violation("tracing changes the frame", where + "%r, silently %r" % (o["traced"], o["silent"]))
        back = [literal(l) for l in o["text"].split("\n") if l.startswith("{")]
        key = lambda d: sorted((k, repr(v)) for k, v in d.items())
        differ("traced operations", sorted(back, key=key), sorted(o["ops"], key=key))
        dump = hexdump([ord(ch) for ch in o["traced"]])
        if dump not in o["text"]:
            raise Violation("traced bytes", where + "%r is not in %r" % (dump, o["text"]))
        if "group_id: %d\n" % o["group"] not in o["text"]:
            raise Violation("traced group", where + "%r" % o["text"])
        kinds |= {x["opcode"] for x in o["ops"]}
    return {"nontrivial": len(kinds) > 1, "labels": sorted(kinds) + params}


@st.composite
def cpp_case(draw):
    copy = draw(st.sampled_from(cpp.COPIES))
    bits = draw(BITS)
    width = draw(st.sampled_from([8, 16, 32]))
    off = draw(st.sampled_from([-1, 0, 1, 3, 7, 8, 13]))
    return [copy, bits, [width, draw(p02_word(width)), draw(st.integers(0, width))], off, draw(st.integers(0, 80)),
            draw(st.sampled_from([[-1, -1], [0, -1], [3, -1], [0, 0], [5, 9], [2, 8]])),
            draw(p04.table()) if draw(st.integers(0, 2)) == 0 else None, draw(st.lists(st.one_of(st.integers(0, 257), st.integers(0, 35), st.integers(120, 260).filter(lambda c: c < 258)), min_size=1, max_size=6))]


def p02_word(n):
    return st.one_of(st.integers(0, (1 << n) - 1), st.sampled_from([0, 1, 1 << (n - 1), (1 << n) - 1]))


def run_cpp(c, env):
    copy, bits, (width, value, n), off, read, (doff, rng), table, syms = c

    def ask(line):
        return bytes.fromhex(cpp.ask(env, copy, "dump " + line)).decode("latin-1")
    o = max(off, 0)
    data = bytes(pack(bits))
    differ("vector", ask("v %s %d %d" % (cpp.hx(data), len(bits), off)), groups(bits, o))
    word = [int(b) for b in format(value, "0%db" % width)][:n]
    differ("word", ask("f%d %d %d %d" % (width, value, n, off)), groups(word, o))
    for s in syms:
        t = ask("u %d" % s)
        if symbol(t) != s:
            raise Violation("symbol", "%r for %d" % (t, s))
    read = min(read, len(bits))
    a, b = max(doff, 0), 1 if rng < 0 else rng
    want = "".join(("|" if i % 8 == 0 else "") + ("-" if i < read + a else "^") for i in range(read + a + b))
    differ("marks", ask("d x%s %d %d %d" % ("".join(map(str, bits)), read, doff, rng)), want)
    lens = set()
    if table is not None:
        t = table if isinstance(table, str) else "own " + " ".join(map(str, table))
        r = cpp.ask(env, copy, "huffman 1 " + t)
        lines = ask("h " + t).split("\n")
        differ("lines", (len(lines), lines[-1]), (258, ""))
        for i, (l, (h, k)) in enumerate(zip(lines, r["words"])):
            w = "".join(format(x, "08b") for x in bytes.fromhex(h))[:k]
            lens.add(k)
            if not l.startswith(groups(w) + " ") or symbol(l[len(groups(w)) + 1:]) != i:
                raise Violation("table line", "%r for symbol %d, %r" % (l, i, w))
    return {"nontrivial": len(bits) % 8 > 0 or len(lens) > 1, "labels": [copy] + (["table"] if table is not None else [])}


def table_case():
    return st.tuples(st.sampled_from(COPIES), p02.table()).map(list)


TARGETS = [
    Target("bits", lambda: st.tuples(st.sampled_from(COPIES), BITS, st.integers(0, 80), ANY).map(list), run_bits, 600),
    Target("table", table_case, run_table, 200),
    Target("ops", ops_case, run_ops, 600),
    Target("trace", trace_case, run_trace, 250),
    Target("cpp", cpp_case, run_cpp, 500),
]
