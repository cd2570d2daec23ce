"""Clients of the worker processes: JSON request per line in, JSON reply per line out."""
import json
import os
import select
import signal
import subprocess
import tempfile

from .core import Fatal, HarnessError, REPO, VERIF, Violation

HANG_S = float(os.environ.get("VERIF_HANG_S", "45"))


class WorkerDied(Exception):
    def __init__(self, rc, err):
        Exception.__init__(self, "worker died rc=%s: %s" % (rc, err[-3000:]))
        self.rc, self.err = rc, err


class Hang(Exception):
    pass


class Worker(object):
    def __init__(self, argv, env, cwd, ready=True):
        self.argv, self.env, self.cwd, self.ready = argv, env, cwd, ready
        self.p = None

    def start(self):
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=self.env, cwd=self.cwd)
        self.buf = b""
        if self.ready:
            try:
                line = self._readline(180)
            except (WorkerDied, Hang) as e:
                self.close()
                raise HarnessError("worker did not start: %s" % e)
            msg = json.loads(line)
            if msg.get("ready") is not True:
                raise HarnessError("worker start: %r" % msg)

    def _err(self):
        try:
            self.errf.flush()
            self.errf.seek(0)
            return self.errf.read().decode("latin-1")
        except Exception:
            return ""

    def _readline(self, timeout):
        import time
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise Hang()
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                continue
            data = os.read(fd, 1 << 20)
            if not data:
                rc = self.p.wait()
                raise WorkerDied(rc, self._err())
            self.buf += data
        line, _, self.buf = self.buf.partition(b"\n")
        return line

    def raw(self, data, timeout):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(data + b"\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            rc = self.p.wait()
            raise WorkerDied(rc, self._err())
        return self._readline(timeout)

    def call(self, op, timeout=None, **args):
        """Runs op in the worker. Exceptions of the code under test come back
        as {"exc": ..., "tb": ...}; a hang or death (confirmed in a fresh
        worker) is a violation: nothing here is allowed to hang or crash."""
        args["op"] = op
        data = json.dumps(args).encode("ascii")
        for attempt in (0, 1):
            try:
                reply = json.loads(self.raw(data, timeout or HANG_S))
                if "harness" in reply:
                    raise HarnessError(reply["harness"])
                return reply
            except Hang:
                self.close()
                if attempt:
                    raise Fatal("hang", "operation %s does not finish" % op)
            except WorkerDied as e:
                self.close()
                if attempt:
                    raise Violation("crash", str(e))

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.errf):
                try:
                    f.close()
                except Exception:
                    pass
            self.p = None


def base_env():
    e = {k: v for k, v in os.environ.items()
         if k in ("TMPDIR",)}
    e.update(HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8",
             PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JYTHONPATH="/opt/jylib",
             VERIF_REPO=REPO)
    return e


def make(kind, env):
    side = os.path.join(VERIF, "vf", "side")
    if kind.startswith("py3"):
        # "py3:<hash seed>"
        e = base_env()
        e["PYTHONHASHSEED"] = kind[4:] or "0"
        return Worker(["/opt/venv/bin/python", "-W", "ignore", os.path.join(side, "py3_server.py")],
                      e, env.scratch)
    if kind.startswith("jy"):
        # "jy:<cwd below repo>" puts that directory first on sys.path
        e = base_env()
        e["VF_JY_PATH"] = kind[3:]
        # small heap and serial collector: several of these run side by side
        return Worker(["/usr/bin/java", "-Xmx1200m", "-Xss16m", "-XX:+UseSerialGC",
                       "-XX:CICompilerCount=2", "-Xshare:auto",
                       "-jar", "/usr/share/java/jython.jar",
                       "-Dpython.home=/usr/share/jython" if os.path.isdir("/usr/share/jython")
                       else "-Dpython.home=/usr",
                       "-Dpython.executable=/usr/bin/jython", "-Dpython.cachedir.skip=true",
                       "-B", os.path.join(side, "jy_server.py")], e, env.scratch)
    if kind == "node":
        return Worker(["node", os.path.join(side, "chart.js")], base_env(), env.scratch)
    if kind.startswith("cpp:"):
        e = base_env()
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=78"
        return Worker([env.prep["bin"][kind[4:]]], e, env.scratch, ready=False)
    raise HarnessError("unknown worker " + kind)
