#!/usr/bin/env python3
"""seed_conc.py [-j N] [ids]: the run-time stage alone (15 s, seeds as in check.py) against each planted bug, in a copy."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i):
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree("/repo/daisy", d + "/daisy")
        p = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        r = subprocess.run(["patch", "-p1", "-s", "-d", d, "-i", f"{V}/seeded/{i}/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            return i, p, "DOES NOT APPLY " + r.stdout
        out = []
        for s in (1, 7920):
            o = f"{d}/o{s}.json"
            try:
                subprocess.run(["/opt/venv/bin/python", V + "/conc/conc.py", "search", p, str(s), "15", o], env=dict(
                    os.environ, DV_REPO=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True, timeout=150)
                v = json.load(open(o)).get("violation")
                out.append((v["kind"] + ": " + v["message"][:150]) if v else "-")
            except Exception as e:
                out.append(f"error {e!r}"[:150])
        return i, p, " | ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 3
    if a[:1] == ["-j"]:
        j = int(a[1]); a = a[2:]
    ids = [i for i in sorted(os.listdir(V + "/seeded")) if not a or any(i.startswith(x) for x in a)]
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for x in ex.map(run, ids):
            print(*x, flush=True)
