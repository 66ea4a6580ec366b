#!/usr/bin/env python3
"""seed_dv.py [-j N] [ids]: the deductive stage alone against each planted bug (in a copy of daisy)."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i):
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree("/repo/daisy", d + "/daisy")
        p = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        r = subprocess.run(["patch", "-p1", "-s", "-d", d, "-i", f"{V}/seeded/{i}/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            return i, p, "DOES NOT APPLY " + r.stdout, []
        subprocess.run(["python3-vt", V + "/dv/run.py", p, d + "/o.json", "quick"], env=dict(
            os.environ, DV_REPO=d, DV_JOBS="2"), capture_output=True, text=True, timeout=1800)
        o = json.load(open(d + "/o.json"))
        ref = [x["name"] for x in o["obligations"] if x["status"] == "refuted"]
        und = ["? " + x["name"] for x in o["obligations"] if x["status"] == "undecided"]
        uns = ["U " + str(x)[:200] for x in o.get("unsupported", [])]
        return i, p, "refuted" if ref else "undecided" if und or uns else "DISCHARGED", ref[:3] + und[:3] + uns[:3]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 3
    if a[:1] == ["-j"]:
        j = int(a[1]); a = a[2:]
    ids = [i for i in sorted(os.listdir(V + "/seeded")) if not a or any(i.startswith(x) for x in a)]
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for i, p, k, notes in ex.map(run, ids):
            print(i, p, k, flush=True)
            for n in notes:
                print("       ", n[:200], flush=True)
