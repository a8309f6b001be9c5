#!/usr/bin/env python3
"""Run the checks against the planted changes: bugs.py [ID|PROPERTY ...] [+CHECK ...].

For each seeded/<id>, /repo is copied to a scratch directory, the change applied there,
and the property's check (and any +CHECK) run on the copy from a copy of this folder.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/fm-bugs"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith("+")]
    extra = [a[1:] for a in sys.argv[1:] if a.startswith("+")]
    sh("rm -rf /tmp/fm-bugs; mkdir -p /tmp/fm-bugs/verif /tmp/fm-bugs/repo")
    sh("tar --exclude=./.git --exclude=./.work --exclude=./evidence --exclude=./seeded -cf - . | tar xf - -C /tmp/fm-bugs/verif", cwd=HERE)
    missed = []
    for bug in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        d = os.path.join(HERE, "seeded", bug)
        if not os.path.exists(d + "/meta.json"):
            continue
        prop = json.load(open(d + "/meta.json"))["property"]
        if sel and bug not in sel and prop not in sel:
            continue
        sh("rm -rf /tmp/fm-bugs/repo/src /tmp/fm-bugs/repo/test-helpers; git -C /repo archive HEAD | tar xf - -C /tmp/fm-bugs/repo")
        r = sh("patch -p1 -s < %s/patch.diff" % d, cwd=WORK + "/repo")
        if r.returncode:
            print(bug, "does not apply:", r.stdout[:200])
            continue
        out = []
        for p in [prop] + [e for e in extra if e != prop]:
            t = time.time()
            r = sh("python3 check.py %s quick" % p, cwd=WORK + "/verif", env=dict(os.environ, FM_REPO=WORK + "/repo", VERIF_SEED="1"))
            v = [l.strip() for l in r.stdout.splitlines() if l.startswith("  [")]
            out.append("%s %s %.0fs %s" % (p, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode), time.time() - t, v[0][:150] if v else r.stdout[-200:] if r.returncode else ""))
            if p == prop and r.returncode != 1:
                missed.append(bug)
        print(bug, "|", " | ".join(out), flush=True)
    print("missed:", missed or "none")
    sh("rm -rf /tmp/fm-bugs")


main()
