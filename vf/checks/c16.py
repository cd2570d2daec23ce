"""C16: fork codec: a scripted external process echoes what it received."""
import os
import shutil
import stat

from hypothesis import strategies as st

from ..core import Target, VERIF, Violation
from .. import gen

RULE = ("histories of 1-5 messages sent to an external process that answers with the bytes it received plus a reply padding of 0 to 200000 bytes; "
        "non-trivial = two or more messages with different replies")
ASSUMPTIONS = ["the external process answers every message and its text replies contain no empty line"]


NAMES = ["peer.py", "peer.py", "bin", "bin.py", "sub/peer", "sub/bin"]


@st.composite
def hist(draw):
    is_request = draw(st.booleans())
    msgs = draw(gen.history(is_request, max_msgs=5, values=gen.latin_value(), max_headers=4))
    out = []
    for m in msgs:
        size = draw(st.one_of(st.sampled_from([-1, 0, 1, 7, 8, 99, 4096, 65536, 65537, 200000]), st.integers(0, 300)))
        out.append([kv for kv in m if kv[0] not in ("x-reply", "host")] + [["x-reply", str(size)]])
    return [is_request, out, draw(st.sampled_from(NAMES)), draw(st.sampled_from([[], [], ["x"]]))]


def lines_of(h):
    if ":method" in h:
        start = "%s %s HTTP/1.1" % (h[":method"], h[":path"])
        skip = (":method", ":path")
    else:
        start = "HTTP/1.1 %s ?" % h[":status"]
        skip = (":status",)
    return start, sorted("%s: %s" % ("host" if k == ":host" else k, v) for k in h if k not in skip for v in h[k].split("\0"))


def check_text(i, text, h):
    start, fields = lines_of(h)
    ls = text.split("\r\n")
    if ls[0] != start or sorted(ls[1:-2]) != fields or ls[-2:] != ["", ""]:
        raise Violation("sent", "message %d reached the process as %r, expected %r %r" % (i, text, start, fields))


def make(binary):
    def run(case, env):
        is_request, msgs, name, extra = case
        cwd = os.path.join(env.scratch, "binary" if binary else "text")
        path = os.path.join(cwd, name)
        if not os.path.exists(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            tmp = path + ".%d" % os.getpid()
            shutil.copy(os.path.join(VERIF, "vf", "side", "fork_peer.py"), tmp)
            os.chmod(tmp, 0o755)
            os.rename(tmp, path)
        hs = [gen.as_dict(m) for m in msgs]
        r = env.worker("py3").call("fork_history", script=name, params=extra + ["bin"] if binary else extra, msgs=hs, cwd=cwd)
        if "exc" in r:
            raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
        for i, (h, o) in enumerate(zip(hs, r["ok"])):
            size = int(h["x-reply"])
            if size < 0:
                if o != "":
                    raise Violation("reply", "message %d: empty reply came back as %r" % (i, o[:300]))
                continue
            if binary:
                pad = "\n\n\0" * (size // 3) + "\n" * (size % 3)
                if not o.endswith(pad):
                    raise Violation("reply", "message %d: reply of %d padding bytes came back as %d bytes" % (i, size, len(o)))
                check_text(i, o[:len(o) - len(pad)], h)
            else:
                first, _, rest = o.partition("\n")
                if rest != "y" * (size % 100) + "z\n" + ("w" * 99 + "\n") * (size // 100):
                    raise Violation("reply", "message %d: reply came back as %r.." % (i, o[:300]))
                check_text(i, bytes.fromhex(first).decode("latin-1"), h)
        if len(r["ok"]) != len(hs):
            raise Violation("count", "%d replies" % len(r["ok"]))
        return {"nontrivial": len(hs) > 1 and len({h["x-reply"] for h in hs}) > 1,
                "labels": (["empty-reply"] if any(h["x-reply"] == "-1" for h in hs) else []) +
                          (["large-reply"] if any(int(h["x-reply"]) > 65535 for h in hs) else [])}
    return run


def run_sample(case, env):
    """The shipped sample process: text mode, echoes the header lines."""
    is_request, msgs = case[:2]
    name = "sample_exec_codec.py"
    path = os.path.join(env.scratch, name)
    if not os.path.exists(path):
        from ..core import REPO
        tmp = path + ".%d" % os.getpid()
        src = open(os.path.join(REPO, name)).read().split("\n")
        src[0] = "#!/opt/venv/bin/python"      # no `python` on this PATH
        open(tmp, "w").write("\n".join(src))
        os.chmod(tmp, 0o755)
        os.rename(tmp, path)
    hs = [gen.as_dict(m) for m in msgs]
    r = env.worker("py3").call("fork_history", script=name, params=[], msgs=hs, cwd=env.scratch)
    if "exc" in r:
        raise Violation("exception", "%s %s %s" % (r["exc"], r["msg"], r["tb"]))
    for i, (h, o) in enumerate(zip(hs, r["ok"])):
        start, fields = lines_of(h)
        ls = o.replace("\r\n", "\n").split("\n")
        if ls[0] != start or sorted(ls[1:-1]) != fields or ls[-1] != "":
            raise Violation("sample", "message %d echoed as %r, expected %r %r" % (i, o, start, fields))
    return {"nontrivial": len(hs) > 1}


@st.composite
def sample_hist(draw):
    is_request = draw(st.booleans())
    return [is_request, draw(gen.history(is_request, max_msgs=4, values=gen.raw_value(), max_headers=4))]


TARGETS = [Target("binary", hist, make(True), 220), Target("text", hist, make(False), 220),
           Target("sample", sample_hist, run_sample, 100)]
