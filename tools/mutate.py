"""Mutation sweep (a development tool, no check): python3-vt tools/mutate.py OUT N SEED [PATTERN]
Makes random token-level mutants of the code under test in a scratch copy, and
runs the checks of the mutated file there until one reports a violation."""
import os
import random
import re
import shutil
import subprocess
import sys

MAP = [
    (r"compare_compressors.py$", "H06 H05"), (r"lib/harfile.py$", "H01 H06"), (r"lib/processors.py$", "H04 H06 H03 H05"),
    (r"lib/stream.py$", "H05 H06"), (r"lib/streamifiers/", "H02"),
    (r"compressor/__init__.py$", "H06"), (r"compressor/http1/", "C01"), (r"compressor/http1_", "C02"), (r"compressor/spdy3/__", "C02"),
    (r"compressor/hyper_hpack/", "C03"), (r"compressor/http2/", "C04 C05"), (r"compressor/headerdiff/Huffman.py$", "C08"),
    (r"compressor/headerdiff/", "C06 C07"), (r"compressor/simple/", "C15"), (r"compressor/fork/", "C16"), (r"sample_exec_codec", "C16"),
    (r"delta/bit_bucket.h$", "P03"), (r"delta/huffman.h$", "P04"), (r"trivial_http_parse.h$", "P09"), (r"delta/utils.(cc|h)$", "P09 P08"),
    (r"delta/spdy4_headers_codec", "P08"),
    (r"bit_bucket.py$", "P01"), (r"/huffman.py$", "P02"), (r"word_freak.py$", "P10"), (r"lrustorage.py$", "P06 C11 C12 C13"),
    (r"common_utils.py$", "P07 P05 P10 P02"), (r"/bohe.py$", "C14"), (r"bohe/__init__.py$", "C13"), (r"bohe/spdy4_codec_impl.py$", "C13 P05 P06 P07"),
    (r"delta/__init__.py$", "C09 C10"), (r"delta/spdy4_codec_impl.py$", "C09 C10 P05 P06 P07"),
    (r"delta2/__init__.py$", "C11 C12"), (r"delta2/spdy4_codec_impl.py$", "C11 C12 P05 P06"),
]
SWAPS = [("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), ("<", "<="), (">", ">="), ("+", "-"), ("-", "+"), ("*", "+"), ("<<", ">>"), (">>", "<<"),
         ("&", "|"), ("|", "&"), ("%", "+"), ("and", "or"), ("or", "and"), ("True", "False"), ("False", "True"), ("not", ""), ("&&", "||"), ("||", "&&"),
         ("true", "false"), ("false", "true"), ("+=", "-="), ("-=", "+="), ("//", "+"), ("/", "*"), ("++", "--"), ("break", "continue"), ("continue", "break"), ("is", "is not")]
TOK = re.compile(r"""(\"\"\".*?\"\"\"|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'|#.*|//.*|[A-Za-z_]\w*|\d\w*(?:\.\d+)?|<<=|>>=|\+\+|--|->|[-+*/%&|^<>=!]=|<<|>>|&&|\|\||//|.)""")


def mutants(path, text):
    out = []
    cpp = path.endswith((".h", ".cc"))
    doc = False
    block = False
    for n, line in enumerate(text.split("\n")):
        s = line.strip()
        if cpp:
            if s.startswith("/*"):
                block = True
            if block:
                if "*/" in s:
                    block = False
                continue
            if s.startswith(("//", "#")) or not s:
                continue
        else:
            q = s.count('"""') + s.count("'''")
            if doc or q:
                if q % 2:
                    doc = not doc
                continue
            if s.startswith(("#", "import", "from", "def ", "class ", "print")) or not s:
                continue
        toks = TOK.findall(line)
        pos = 0
        for t in toks:
            at = line.index(t, pos)
            pos = at + len(t)
            if t.startswith("#") and not cpp or t.startswith("//") and cpp:
                break
            new = []
            for a, b in SWAPS:
                if t == a:
                    new.append(b)
            if re.fullmatch(r"\d+", t):
                new += [str(int(t) + 1), str(max(0, int(t) - 1))] if int(t) else ["1"]
            elif re.fullmatch(r"0x[0-9a-fA-F]+", t):
                new += [hex(int(t, 16) ^ 1)]
            elif len(t) > 2 and t[0] in "'\"" and t[-1] == t[0] and not t.startswith('"""'):
                new.append(t[0] + t[2:] if t[1] != "\\" else t[0] + "Q" + t[1:])
            for b in new:
                out.append((n, line[:at] + b + line[pos:]))
        if re.match(r"[\w.\[\]'\"]+ *([-+|&]?=[^=]|\()|return |del ", s) and "{" not in s and s[-1] not in "(,":
            ind = line[:len(line) - len(line.lstrip())]
            out.append((n, ind + (";" if cpp else "pass")))
        m = re.match(r"(\s*(?:if|while|elif|else if) *\(?)(.*)$", line)
        if m and not cpp and s.endswith(":"):
            out.append((n, m.group(1) + "not (" + m.group(2)[:-1].split("#")[0] + "):"))
    return out


def main(outp, n, seed, pattern=""):
    work = "/tmp/mutate-%d" % os.getpid()
    verif, repo = work + "/verif", work + "/repo"
    os.makedirs(work)
    subprocess.check_call("git -C /verif archive --prefix=verif/ HEAD | tar x -C %s; git -C /repo archive --prefix=repo/ HEAD | tar x -C %s" % (work, work), shell=True)
    rng = random.Random(int(seed))
    files = subprocess.check_output(["git", "-C", "/repo", "ls-files"], text=True).split()
    pool = []
    for f in files:
        checks = next((c for r, c in MAP if re.search(r, f)), None)
        if not checks or "test" in f or (pattern and not re.search(pattern, f)):
            continue
        if f.startswith("compressor/delta_bohe/") and f.endswith((".h", ".cc")):
            continue
        text = open("/repo/" + f, encoding="latin-1").read()
        ms = mutants(f, text)
        rng.shuffle(ms)
        pool += [(f, checks, m) for m in ms[:max(6, len(ms) // 4)]]
    rng.shuffle(pool)
    done = set()
    if os.path.exists(outp):
        done = {l.split("\t")[1] + l.split("\t")[2] for l in open(outp) if l.count("\t") > 2}
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
    count = 0
    for f, checks, (ln, new) in pool:
        if count >= int(n):
            break
        p = repo + "/" + f
        old = open(p, encoding="latin-1").read()
        lines = old.split("\n")
        was = lines[ln]
        if was == new or f + "%d: %s" % (ln + 1, new.strip()) in done:
            continue
        lines[ln] = new
        open(p, "w", encoding="latin-1").write("\n".join(lines))
        verdict = "SURVIVED"
        for c in checks.split():
            try:
                r = subprocess.run(["bash", verif + "/run_check.sh", c], env=env, capture_output=True, text=True, timeout=900, cwd=verif, errors="replace")
            except subprocess.TimeoutExpired:
                verdict = "timeout:" + c
                break
            if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                verdict = "caught:" + c
                break
            if r.returncode:
                verdict = "error:%s:%s" % (c, (r.stdout + r.stderr)[-200:].replace("\n", " ").replace("\t", " "))
        open(p, "w", encoding="latin-1").write(old)
        open(outp, "a").write("%s\t%s\t%d: %s\t%s\n" % (verdict, f, ln + 1, new.strip(), was.strip()))
        count += 1
        for d in ("replay", "evidence"):
            shutil.rmtree(verif + "/" + d, ignore_errors=True)
    shutil.rmtree(work)


main(*sys.argv[1:])
