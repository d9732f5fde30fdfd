"""plant.py FILE: turns the planted-bug descriptions in FILE (python: a list BUGS of dicts with id, property, file,
edits [(old, new)], demo (python source), needs, breaks) into /verif/seeded/<id>/, after checking in /repo that the
patch applies, the demo tells the trees apart and the tests still pass; then says what the property's check makes of it."""
import json
import os
import subprocess
import sys

DEMO = '''#!/bin/bash
# run with cwd /repo: 0 when the property holds on the case in demo.py
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/py2compat:. TZ=UTC SCRATCH=/nonexistent
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def demo(d):
    return sh("timeout 280 bash %s/demo.sh" % d, cwd="/repo")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        assert not sh("git -C /repo status --porcelain").stdout, "repo not clean"
        d = "/verif/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write("import py2compat\n" + b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        r0 = demo(d)
        p = "/repo/" + b["file"]
        s = open(p, newline="").read()
        for old, new in b["edits"]:
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (b["id"], s.count(old), old)
            s = s.replace(old, new)
        try:
            open(p, "w", newline="").write(s)
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            r1 = demo(d)
            base = sh("/verif/tools/baseline.sh").stdout.strip()
            chk = sh("./check %s" % b["property"], cwd="/verif")
            last = [x for x in chk.stdout.splitlines() if "VIOLATION" in x] or chk.stdout.splitlines()[-1:]
        finally:
            sh("git -C /repo checkout -- .")
        ok = r0.returncode == 0 and r1.returncode != 0 and "missing: []" in base
        print("%-28s %s demo %d/%d %s | check exit %d %s" % (b["id"], "ok " if ok else "BAD", r0.returncode, r1.returncode,
                                                           base, chk.returncode, last), flush=True)
        if not ok:
            print(r0.stdout[-500:], r0.stderr[-800:], "--", r1.stdout[-300:], r1.stderr[-500:])


main()
