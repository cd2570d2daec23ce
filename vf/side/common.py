"""Server loop, both Python 2 (Jython) and Python 3."""
import json
import os
import sys
import traceback

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


class Null(object):
    """Stands in for sys.stdout: the code under test prints diagnostics."""
    encoding = "utf-8"

    def write(self, s):
        pass

    def flush(self):
        pass


def short_tb():
    t, v, tb = sys.exc_info()
    names = [f for f in traceback.extract_tb(tb)]
    lines = ["%s:%s:%s" % (os.path.basename(f[0]), f[2], f[1]) for f in names[-6:]]
    try:
        msg = str(v)
    except Exception:
        msg = repr(v)
    return {"exc": getattr(t, "__name__", str(t)), "msg": msg[:600], "tb": lines}


def serve():
    out = os.fdopen(os.dup(1), "wb") if sys.version_info[0] >= 3 else sys.stdout
    sys.stdout = Null()
    def send(obj):
        data = json.dumps(obj).encode("ascii")
        out.write(data + b"\n")
        out.flush()
    send({"ready": True})
    inp = sys.stdin.buffer if sys.version_info[0] >= 3 else sys.stdin
    while True:
        line = inp.readline()
        if not line:
            break
        req = json.loads(line.decode("ascii"))
        name = req.pop("op")
        if name not in OPS:
            send({"harness": "unknown op " + name})
            continue
        try:
            reply = OPS[name](**dict((str(k), v) for k, v in req.items()))
            send({"ok": reply})
        except KeyboardInterrupt:
            raise
        except BaseException:
            send(short_tb())
