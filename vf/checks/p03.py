"""P03: the C++ bit buckets against a plain list of bits."""
from hypothesis import strategies as st

from .. import cpp
from ..core import Target, Violation
from .p01 import as_bytes, bits_of, byte_list, word

RULE = ("programs of storing (single bits, 8/16/32-bit words, bit strings, bytes, byte-aligned data), peeking, reading, seeking, "
        "over-reading and clearing on both C++ copies under AddressSanitizer and UBSan, compared with a list of bits; non-trivial = "
        "a store and a read that both start off a byte boundary")
ASSUMPTIONS = ["a bit string holds exactly the bytes its bit count needs", "seeking stays within the bits stored",
               "little-endian machine"]
prepare = cpp.prepare


def blist(op):
    return byte_list().map(lambda b: [op, b[1], b[2]])


def by(n=20):
    return st.lists(st.integers(0, 255), max_size=n)


STEP = st.one_of(
    blist("s"), blist("i"),
    st.booleans().map(lambda v: ["b", int(v)]), st.booleans().map(lambda v: ["b", int(v)]),
    word(8).map(lambda v: ["8", v]), word(16).map(lambda v: ["16", v]), word(32).map(lambda v: ["32", v]),
    by().map(lambda b: ["y", b]),
    st.one_of(by(5).map(lambda b: ["a", b]), by(5).map(lambda b: ["ai", b]),
              word(8).map(lambda v: ["a8", v]), word(16).map(lambda v: ["a16", v]), word(32).map(lambda v: ["a32", v])),
    st.tuples(st.sampled_from(["r8", "r16", "r32"]), st.integers(0, 10 ** 6)).map(list),
    st.integers(0, 9).map(lambda n: ["g", n]), st.integers(0, 60).map(lambda n: ["g", n]),
    st.just(["G"]), st.just(["G"]),
    st.tuples(st.just("p"), word(32), st.one_of(st.integers(0, 32), st.just(32))).map(list),
    st.integers(0, 10 ** 6).map(lambda n: ["k", n]),
    st.integers(0, 10 ** 6).map(lambda n: ["d", n]), st.integers(0, 10 ** 6).map(lambda n: ["c", n]),
    st.just(["?"]), st.just(["?"]), st.just(["z"]))
RARE = st.one_of(st.just(["C"]), st.integers(1, 40).map(lambda n: ["o", n]))


def strategy():
    step = st.integers(0, 24).flatmap(lambda i: RARE if i == 24 else STEP)
    return st.tuples(st.sampled_from(cpp.COPIES), 
                     st.sampled_from([0, 8, 16]).flatmap(lambda m: st.lists(step, min_size=m, max_size=30))).map(list)


def val(bits):
    return int("".join(map(str, bits)) or "0", 2)


def run(case, env):
    copy, program = case
    # Positions in the case are scaled to what is stored at that point, so the
    # model runs first, and the program it yields is what the code gets.
    bits, pos, toks, wants = [], 0, [], []
    off_store = off_read = False
    for step in program + [["?"]]:
        op = step[0]
        want = None
        start = len(bits)
        if op == "b":
            bits.append(step[1])
            toks.append("b %d" % step[1])
        elif op in ("8", "16", "32"):
            bits += bits_of(step[1], int(op))
            toks.append("%s %d" % (op, step[1]))
        elif op in ("s", "i"):
            bits += [x for v in step[1] for x in bits_of(v, 8)][:step[2]]
            toks.append("%s %s %d" % (op, cpp.hx(step[1]), step[2]))
        elif op == "y":
            bits += [x for v in step[1] for x in bits_of(v, 8)]
            toks.append("y %s" % cpp.hx(step[1]))
        elif op in ("a", "ai", "a8", "a16", "a32"):
            data = step[1] if op in ("a", "ai") else list(step[1].to_bytes(int(op[1:]) // 8, "little"))
            bits += [0] * (-len(bits) % 8)
            bits += [x for v in data for x in bits_of(v, 8)]
            toks.append("%s %s" % (op, cpp.hx(data) if op in ("a", "ai") else step[1]))
        elif op in ("r8", "r16", "r32"):
            n = int(op[1:]) // 8
            data = as_bytes(bits)
            if len(data) < n:
                continue
            at = step[1] % (len(data) - n + 1)
            want = int.from_bytes(bytes(data[at:at + n]), "little")
            toks.append("%s %d" % (op, at))
        elif op == "g":
            n = min(step[1], len(bits) - pos)
            if n == 0:
                continue
            off_read |= pos % 8 != 0
            want = bytes(as_bytes(bits[pos:pos + n])).hex()
            pos += n
            toks.append("g %d" % n)
        elif op == "G":
            if pos >= len(bits):
                continue
            off_read |= pos % 8 != 0
            want = bits[pos]
            pos += 1
            toks.append("G")
        elif op == "p":
            off_read |= pos % 8 != 0
            n = step[2]
            seen = (bits[pos:pos + n] + [0] * n)[:n]
            want = ((step[1] << n) | val(seen)) & 0xffffffff
            toks.append("p %d %d" % (step[1], n))
        elif op == "k":
            pos = step[1] % (len(bits) + 1)
            toks.append("k %d" % pos)
        elif op in ("d", "c"):
            n = step[1] % (len(bits) - pos + 1)
            pos += n
            toks.append("%s %d" % (op, n))
        elif op == "C":
            bits, pos = [], 0
            toks.append("C")
        elif op == "o":
            want = 1006
            toks.append("o %d" % (len(bits) - pos + step[1]))
        elif op == "z":
            want = "".join(("|" if i % 8 == 0 else "") + str(b) for i, b in enumerate(bits)) + \
                " [%d,%d]" % (len(bits), len(bits) % 8)
            toks.append("z")
        elif op == "?":
            data = as_bytes(bits)
            want = [len(bits), pos, len(bits) - pos, int(pos >= len(bits)), len(data), bytes(data).hex()]
            toks.append("?")
        if len(bits) > start and op not in ("a", "ai", "a8", "a16", "a32"):
            off_store |= start % 8 != 0
        wants.append(want)
    got = cpp.ask(env, copy, "bucket " + " ".join(toks))
    for i, (t, g, w) in enumerate(zip(toks, got, wants)):
        if g != w:
            raise Violation("over-read" if t[0] == "o" else "bits", "%s: step %d of %s gave %r, expected %r" % (
                copy, i, toks, g, w))
    if len(got) != len(wants):
        raise Violation("bits", "%s: %d answers for %d steps" % (copy, len(got), len(wants)))
    return {"nontrivial": off_store and off_read, "labels": [copy]}


TARGETS = [Target("program", strategy, run, 12000)]
