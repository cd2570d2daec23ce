"""Building and asking the C++ drivers (vf/cpp/*.cc), once per copy of the code."""
import json
import os
import subprocess

from . import workers
from .core import Fatal, HarnessError, REPO, VERIF, Violation

COPIES = ["delta", "delta_bohe"]
# As the Makefile has it (C++11, NDEBUG), plus the headers that newer standard
# libraries no longer bring along, and the sanitizers that make every step
# outside an object an error. Unaligned access is part of the interface
# (GetByteAlignedUint16 returns a reference into the bytes).
FLAGS = ["-std=c++0x", "-O1", "-g", "-w", "-DNDEBUG", "-include", "cstdint", "-include", "cmath",
         "-include", "array", "-fsanitize=address,undefined", "-fno-sanitize=alignment",
         "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]


def prepare(scratch):
    return build(scratch, "harness", [])


def prepare_bench(scratch):
    """The driver of the benchmark program's parts (vf/cpp/bench.cc)."""
    # (fortified, read would be called by another name)
    return build(scratch, "bench", ["-U_FORTIFY_SOURCE", '-DSAMPLE="spdy4_headers_sample.cc"'])


def build(scratch, driver, flags):
    procs = []
    for copy in COPIES:
        src = os.path.join(REPO, "compressor", copy)
        objs = []
        for name in ["header_freq_tables", "utils", "spdy4_headers_codec", None]:
            cc = os.path.join(src, name + ".cc") if name else os.path.join(VERIF, "vf", "cpp", driver + ".cc")
            obj = os.path.join(scratch, "%s-%s.o" % (copy, name or driver))
            objs.append(obj)
            log = open(obj + ".log", "w+")
            procs.append((subprocess.Popen(["g++"] + FLAGS + ([] if name else flags) + ["-I", src, "-c", cc, "-o", obj],
                                           stdout=log, stderr=log, stdin=subprocess.DEVNULL), log))
        procs.append((copy, objs))
    out = {}
    for p, x in procs:
        if isinstance(p, str):
            b = os.path.join(scratch, "cpp-" + p)
            r = subprocess.run(["g++"] + FLAGS + x + ["-o", b, "-lz"] + (["-Wl,--wrap=main,--wrap=read"] if driver == "bench" else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return {"build_error": r.stdout.decode("utf-8", "replace")[-3000:]}
            out[p] = b
        elif p.wait():
            x.seek(0)
            return {"build_error": x.read()[-3000:]}
    return {"bin": out}


def ask(env, copy, line, timeout=None):
    """One request; a crash, a sanitizer report or a hang (confirmed in a fresh
    process) is a violation."""
    w = env.worker("cpp:" + copy)
    for attempt in (0, 1):
        try:
            r = json.loads(w.raw(line.encode("ascii"), timeout or workers.HANG_S))
            if isinstance(r, dict) and "harness" in r:
                raise HarnessError(r["harness"])
            return r
        except workers.Hang:
            w.close()
            if attempt:
                raise Fatal("hang", "%s: %s does not finish" % (copy, line[:200]))
        except workers.WorkerDied as e:
            w.close()
            if attempt:
                raise Violation("crash", "%s: %s" % (copy, digest(e)))


def digest(e):
    """The lines of a sanitizer's report that say what and where."""
    keep = [l for l in e.err.splitlines()
            if "ERROR" in l or "runtime error" in l or "SUMMARY" in l or l.strip().startswith("#")]
    return "ended with %s\n%s" % (e.rc, "\n".join(keep[:14]) or e.err[-600:])


def hx(b):
    return "x" + bytes(b).hex()
