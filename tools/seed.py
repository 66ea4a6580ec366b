"""Creates and validates planted bugs: python3 tools/seed.py [id...]

Each entry: id, property, file, list of (old, new), needs, breaks, demo (python).
A bug is kept under seeded/<id> only if it compiles, passes the tests, and its
demo passes without and fails with it (all in a scratch copy of /repo)."""
import json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
B = json.load(open("/opt/vp/BASELINE.json"))

HEAD = '''import daisy, itertools
from daisy import Roi, Coordinate
from daisy.dependency_graph import BlockwiseDependencyGraph, DependencyGraph
from daisy.scheduler import Scheduler
from daisy.block import BlockStatus

def graph(total, read, write, conflict=True, fit="valid"):
    return BlockwiseDependencyGraph("t", Roi(*read), Roi(*write), conflict, fit, total_read_roi=Roi(*total))

def blocks(g):
    return [b for l in range(g.num_levels) for b in g.level_blocks(l)]

def task(name, total, read, write, conflict=False, fit="valid", up=(), retries=0, check=None, fn=None, workers=1):
    return daisy.Task(name, Roi(*total), Roi(*read), Roi(*write), process_function=fn or (lambda b: None),
        check_function=check, read_write_conflict=conflict, fit=fit, upstream_tasks=list(up), max_retries=retries, num_workers=workers)
'''

BUGS = []
def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append((id, prop, file, edits, needs, breaks, demo))

exec(open(os.path.join(HERE, "tools", "seeds.txt")).read())

def sh(cmd, cwd, timeout=600, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=cwd, **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def tests(copy):
    x = tempfile.mktemp(suffix=".xml", dir=copy)
    rc, out = sh(f"setsid timeout -k 5 400 {PY} -m pytest tests -q -p no:cacheprovider --timeout=60 -o junit_family=xunit2 --junitxml={x}", copy)
    ok = set()
    try:
        for tc in ET.parse(x).iter("testcase"):
            if not len([c for c in tc if c.tag in ("failure", "error", "skipped")]):
                ok.add(tc.get("name"))
    except Exception as e:
        return ["no junit: " + out[-500:]]
    names = B["stable"]
    return [n for n in names if n.split("::")[-1] not in ok]

def main(ids):
    for id, prop, file, edits, needs, breaks, demo in BUGS:
        if ids and id not in ids:
            continue
        d = os.path.join(HERE, "seeded", id)
        copy = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo/.", copy], check=True)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "demo.py"), "w").write(HEAD + demo.lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# exit 0 iff the property holds in this scenario\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nT=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\nD="$(cd "$(dirname "$0")" && pwd)"\nexport DAISY_REPO="$PWD"\ncd "$T" && timeout -k 5 120 /opt/venv/bin/python "$D/demo.py"\n')
            rc0, o0 = sh(["bash", os.path.join(d, "demo.sh")], copy, 200)
            for f, (old, new) in [(file, e) for e in edits] if isinstance(file, str) else [(e[0], e[1:]) for e in edits]:
                p = os.path.join(copy, f)
                s = open(p).read()
                assert s.count(old) == 1, (id, f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=copy, capture_output=True, text=True).stdout
            rc1, o1 = sh(["bash", os.path.join(d, "demo.sh")], copy, 200)
            t = tests(copy)
            good = rc0 == 0 and rc1 != 0 and not t
            print(id, prop, "OK" if good else f"BAD demo {rc0}/{rc1} failing tests {t}\n--clean\n{o0[-800:]}\n--bug\n{o1[-800:]}", flush=True)
            if good:
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            else:
                shutil.rmtree(d)
        finally:
            shutil.rmtree(copy, ignore_errors=True)

main(sys.argv[1:])
