"""Shared by the codec checks: driving a history and judging round trips."""
from ..core import Violation
from .. import gen


def drive(env, worker, **args):
    r = env.worker(worker).call("codec_history", **args)
    if "exc" in r:
        raise Violation("setup-exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    return r["ok"]


def check_items(msgs, items, norm=gen.norm, decode=True):
    """Every message compressed, decompressed, and equal."""
    for i, m in enumerate(msgs):
        if i >= len(items):
            raise Violation("missing", "no result for message %d" % i)
        o = items[i]
        if "enc_exc" in o:
            raise Violation("compress-exception", "message %d: %r" % (i, o["enc_exc"]))
        if o.get("mutated"):
            raise Violation("mutated", "message %d: compress changed the header set it was given" % i)
        if not decode:
            continue
        if "dec_exc" in o:
            raise Violation("decompress-exception", "message %d: %r" % (i, o["dec_exc"]))
        want, got = norm(m), norm(o["dec"])
        if want != got:
            raise Violation("round-trip", "message %d of %d: expected %r, got %r" % (i, len(msgs), want, got))


def wires(items):
    return [o["wire"].encode("latin-1") for o in items]
