"""Confirm a planted bug and store it under /verif/seeded.

usage: plant.py SPEC.py [...]   SPEC defines ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new[, which])], DEMO (text of demo.py), RUN ('py3'|'jy'|'sh'), and
optionally FILES = {name: text}.
The edit is made in /repo, built, tested, demonstrated, checked and undone.
"""
import json, os, shutil, subprocess, sys

SEED = "/verif/seeded"
SH = {
 "py3": '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python "$D/demo.py"\n',
 "jy": '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexec env JYTHONPATH="$PWD:/opt/jylib" java -Xss16m -jar /usr/share/java/jython.jar -B "$D/demo.py"\n',
}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(SEED, ns["ID"])
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    os.makedirs(d, exist_ok=True)
    if ns["RUN"] == "sh":
        open(d + "/demo.sh", "w").write(ns["DEMO"])
    else:
        open(d + "/demo.sh", "w").write(SH[ns["RUN"]])
        open(d + "/demo.py", "w").write(ns["DEMO"])
    for n, t in ns.get("FILES", {}).items():
        open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(d + "/meta.json", "w"), indent=1)
    cpp = any(e[0].endswith((".h", ".cc")) for e in ns["EDITS"])
    ok = True
    clean = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    print(ns["ID"], "demo clean rc", clean.returncode)
    if clean.returncode:
        print(clean.stdout[-1500:])
        ok = False
    try:
        for e in ns["EDITS"]:
            f, old, new = e[:3]
            p = "/repo/" + f
            t = open(p, newline="").read()
            n = t.count(old)
            which = e[3] if len(e) > 3 else None
            if which is None:
                assert n == 1, (f, n, old)
                t = t.replace(old, new)
            else:
                parts = t.split(old)
                t = old.join(parts[:which + 1]) + new + old.join(parts[which + 1:])
            open(p, "w", newline="").write(t)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout)
        b = sh("bash /opt/vp/build.sh", timeout=900)
        if b.returncode:
            print("BUILD FAILS", b.stdout[-800:]); ok = False
        t = sh("bash /opt/vp/test.sh /tmp/plant-t.json", timeout=900).stdout.strip().splitlines()[-1]
        base = json.load(open("/opt/vp/BASELINE.json"))
        print(" tests:", t)
        if "77 passed" not in t:
            ok = False
        bad = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        print(" demo patched rc", bad.returncode, bad.stdout[-300:].replace("\n", " | "))
        if not bad.returncode:
            ok = False
        if "--nocheck" not in sys.argv:
            r = sh("bash run_check.sh %s --seed 1 2>&1 | cut -c1-400" % ns["PROPERTY"], cwd="/verif", timeout=1500)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(" CHECK", ns["PROPERTY"], "CAUGHT" if v else "MISSED", "|", "\n".join(r.stdout.splitlines()[-4:])[:900])
    finally:
        sh("git -C /repo checkout -- .")
        if cpp:
            sh("bash /opt/vp/build.sh", timeout=900)
    print(" ==>", ns["ID"], "OK" if ok else "NOT VALID")


for p in sys.argv[1:]:
    if not p.startswith("--"):
        main(p)
