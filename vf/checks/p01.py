"""P01: the Python bit buckets against a plain list of bits."""
from hypothesis import strategies as st

from ..core import Target, Violation

COPIES = ["delta", "delta2", "bohe", "delta_bohe", "delta2_bohe"]
RULE = ("programs of storing (1/4/8/16/22/32 bits, byte lists with junk after the last bit), reading, over-reading, padding and clearing "
        "on each of the five copies, compared with a list of bits; non-trivial = a store and a read that both start off a byte boundary")
ASSUMPTIONS = ["values passed to StoreBitsN fit N bits; a byte list holds exactly the bytes its bit count needs"]


def bits_of(v, n):
    return [(v >> (n - 1 - i)) & 1 for i in range(n)]


def as_bytes(bits):
    bits = bits + [0] * (-len(bits) % 8)
    return [sum(bits[i + j] << (7 - j) for j in range(8)) for i in range(0, len(bits), 8)]


def word(n):
    """Values of n bits: random ones, and few bits set or cleared."""
    return st.one_of(st.integers(0, 2 ** n - 1), st.sampled_from([0, 1, 2 ** n - 1, 2 ** (n - 1), 2 ** (n - 1) - 1]))


@st.composite
def byte_list(draw):
    n = draw(st.one_of(st.integers(1, 20), st.integers(1, 80), st.sampled_from([8, 16, 24, 64])))
    data = draw(st.lists(st.integers(0, 255), min_size=(n + 7) // 8, max_size=(n + 7) // 8))
    return ["StoreBits", data, n]


FIXED = {"GetBit": 1, "GetBits4": 4, "GetBits8": 8, "GetBits16": 16, "GetBits32": 32}
STORES = {"StoreBit": 1, "StoreBits4": 4, "StoreBits8": 8, "StoreBits16": 16, "StoreBits22": 22, "StoreBits32": 32}
ASK = ["NumBits", "BitsRemaining", "AllConsumed", "BytesOfStorage", "GetAllBits"]


@st.composite
def program(draw, copy):
    """Keeps count of the bits stored and read, so that most reads are of bits
    that are there, and many stop just before, on or after a byte boundary."""
    stores = ["StoreBit", "StoreBits8", "StoreBits16", "StoreBits32"]
    reads = ["GetBits8", "GetBits16", "GetBits32"]
    pads = ["AdvanceToByteBoundary"]
    if copy == "delta2":
        stores, reads, pads = stores + ["StoreBits4"], reads + ["GetBit", "GetBits4"], ["PadToByteBoundary", "AdvanceReadPtrToByteBoundary"]
    if copy == "bohe":
        stores = stores + ["StoreBits22"] * 2
    out, have, pos = [], 0, 0
    for _ in range(draw(st.integers(1, 24))):
        left = have - pos
        kind = draw(st.sampled_from("ssssrrrraappc" if left else "sssssssrraapc"))
        if kind == "s":
            if draw(st.booleans()):
                out.append(draw(byte_list()))
                have += out[-1][2]
            else:
                name = draw(st.sampled_from(stores))
                out.append([name, draw(st.integers(0, 1) if name == "StoreBit" else word(STORES[name]))])
                have += STORES[name]
        elif kind == "r":
            how = draw(st.integers(0, 9))
            if how == 0:
                n = left + draw(st.integers(1, 9))
            elif how <= 3:
                n = 8 * draw(st.integers(0, 3)) - pos % 8 + draw(st.sampled_from([-1, 0, 1, 7]))
            elif how == 4:
                n = left - draw(st.integers(0, 2))
            elif how <= 6:
                name = draw(st.sampled_from(reads))
                out.append([name])
                pos += FIXED[name] if FIXED[name] <= left else 0
                continue
            else:
                n = draw(st.integers(1, 40))
            if n > left and how or n < 1:
                n = max(1, min(left, n))
            out.append(["GetBits", n])
            pos += n if n <= left else 0
        elif kind == "a":
            out.append([draw(st.sampled_from(ASK))])
        elif kind == "p":
            name = draw(st.sampled_from(pads))
            if name == "PadToByteBoundary":
                have += -have % 8
            elif (pos + 7) // 8 * 8 > have:
                continue
            else:
                pos = (pos + 7) // 8 * 8
            out.append([name])
        elif draw(st.integers(0, 3)) == 0:
            out.append(["Clear"])
            have = pos = 0
    return [copy, out]


def strategy():
    return st.sampled_from(COPIES).flatmap(program)


def run(case, env):
    copy, program = case
    r = env.worker("jy").call("bucket", copy=copy, program=program)
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    bits, pos = [], 0
    off_store = off_read = False
    for i, (step, got) in enumerate(zip(program, r["ok"])):
        name = step[0]
        want = ["v", None]
        if name in ("StoreBit", "StoreBits") or name.startswith("StoreBits"):
            if name == "StoreBit":
                new = [step[1]]
            elif name == "StoreBits":
                new = [x for v in step[1] for x in bits_of(v, 8)][:step[2]]
            else:
                new = bits_of(step[1], int(name[9:]))
            off_store |= len(bits) % 8 != 0
            bits += new
        elif name == "GetBits" or name in FIXED:
            n = FIXED.get(name) or step[1]
            if n > len(bits) - pos:
                if got[0] != "e":
                    raise Violation("over-read", "%s: step %d %r gave %r with %d bits left" % (copy, i, step, got, len(bits) - pos))
                continue
            off_read |= pos % 8 != 0
            out = bits[pos:pos + n]
            pos += n
            if name == "GetBits":
                want = ["v", [as_bytes(out), n]]
            else:
                want = ["v", int("".join(map(str, out)), 2)]
        elif name == "Clear":
            bits, pos = [], 0
        elif name == "PadToByteBoundary":
            bits += [0] * (-len(bits) % 8)
        elif name in ("AdvanceToByteBoundary", "AdvanceReadPtrToByteBoundary"):
            if (pos + 7) // 8 * 8 > len(bits):
                break            # nothing says what reading past the end means
            pos = (pos + 7) // 8 * 8
        elif name == "NumBits":
            want = ["v", len(bits)]
        elif name == "BitsRemaining":
            want = ["v", len(bits) - pos]
        elif name == "AllConsumed":
            want = ["v", pos >= len(bits)]
        elif name == "BytesOfStorage":
            want = ["v", (len(bits) + 7) // 8]
        elif name == "GetAllBits":
            want = ["v", [as_bytes(bits), len(bits)]]
        if got != want:
            raise Violation("bits", "%s: step %d %r gave %r, expected %r (%d bits stored, %d read)" %
                            (copy, i, step, got, want, len(bits), pos))
    return {"nontrivial": off_store and off_read, "labels": [copy]}


TARGETS = [Target("program", strategy, run, 6000)]
