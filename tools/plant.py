#!/usr/bin/env python3
"""Make and confirm planted bugs (run by hand).

usage: plant.py SPECFILE [ID...]

The spec file is Python that calls bug(id, property, needs, breaks, edits=[(file, old, new)...], demo="python source").
Each is confirmed in a scratch copy (applies, builds, tests pass, demo 0 -> nonzero), written to seeded/<id>/ and the check of its
property is run against it.
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
ROOT = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[-1]


def bug(id, prop, needs, breaks, edits, demo):
    BUGS[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def base():
    "the pinned commit"
    out = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
    for l in out:
        h, s = l.split(" ", 1)
        if not s.startswith("fix:"):
            return h


def plant(b):
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        repo = d + "/repo"
        sh("cp -a /repo " + repo, "/")
        sh("git checkout -q -- .", repo)
        orig = base()
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit matches {} times: {!r}".format(s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", repo).stdout
        # which lines are changed: are they of the original repository?
        touched = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        for f in {e[0] for e in b["edits"]}:
            o = sh("git show {}:{}".format(orig, f), repo).stdout.splitlines()
            touched = [l for l in touched if l not in o]
        if touched:
            print("   note: lines not in the original:", touched)
        out = os.path.join(d, "seed")
        os.mkdir(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={} /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -3".format(repo), repo)
        if "14 passed" not in r.stdout:
            return "tests: " + r.stdout
        a = sh("bash {}/demo.sh".format(out), "/repo")
        z = sh("bash {}/demo.sh".format(out), repo)
        if a.returncode != 0 or z.returncode == 0:
            return "demo: clean {} bug {}\n{}\n{}".format(a.returncode, z.returncode, (a.stdout + a.stderr)[-700:], (z.stdout + z.stderr)[-700:])
        dest = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(out, dest)
        msg = "demo ok; "
        ev = d + "/ev"
        r = sh("VERIF_REPO={} VERIF_SEED=1 VERIF_EVIDENCE={} python3 run.py {} --tier quick".format(repo, ev, b["prop"]), VERIF)
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        return msg + "check exit {} {}".format(r.returncode, [l[:160] for l in lines if " case " in l or "->" in l][:3])
    finally:
        shutil.rmtree(d, ignore_errors=True)


exec(open(sys.argv[1]).read())
for id, b in BUGS.items():
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        continue
    print(id, b["prop"], plant(b), flush=True)
