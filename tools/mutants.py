#!/usr/bin/env python3
"""tools/mutants.py [-j N] [names...] -- runs the deductive stage against mutated and refactored copies of daisy
(tools/mutants/*.py define M(name, prop, unit, file, old, new, expect)); expect: "refuted" or "quiet"."""
import concurrent.futures, glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DV_REPO", "/repo")
ALL = []


def M(name, prop, unit, file, *reps, expect="refuted"):
    ALL.append(dict(name=name, prop=prop, unit=unit, file=file, reps=reps, expect=expect))


def run(m):
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree(REPO + "/daisy", d + "/daisy")
        p = f"{d}/daisy/{m['file']}"
        s = open(p).read()
        for i in range(0, len(m["reps"]), 2):
            if m["reps"][i] not in s:
                return m, "NOT APPLICABLE", []
            s = s.replace(m["reps"][i], m["reps"][i + 1])
        compile(s, p, "exec")
        open(p, "w").write(s)
        out = d + "/o.json"
        r = subprocess.run(["python3-vt", HERE + "/../dv/run.py", m["prop"], out, "quick", m["unit"]], env=dict(
            os.environ, DV_REPO=d, DV_JOBS="2"), capture_output=True, text=True, timeout=900)
        try:
            o = json.load(open(out))
        except Exception:
            return m, "ERROR " + r.stderr[-300:], []
        ref = [x["name"] for x in o["obligations"] if x["status"] == "refuted"]
        und = [x["name"] for x in o["obligations"] if x["status"] == "undecided"]
        uns = [str(x)[:200] for x in o.get("unsupported", [])]
        k = "refuted" if ref else "undecided" if und or uns else "discharged"
        return m, k, ref[:3] + ["? " + x for x in und[:4]] + ["U " + x for x in uns[:3]]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 4
    if a[:1] == ["-j"]:
        j = int(a[1]); a = a[2:]
    for f in sorted(glob.glob(HERE + "/mutants/*.py")):
        exec(compile(open(f).read(), f, "exec"))
    todo = [m for m in ALL if not a or any(m["name"].startswith(x) for x in a)]
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for m, k, notes in ex.map(run, todo):
            ok = (k == "refuted") == (m["expect"] == "refuted") and (m["expect"] != "discharged" or k == "discharged") and not k.startswith(("NOT", "ERR"))
            print("ok  " if ok else "BAD ", m["name"], m["prop"], k, f"(expected {m['expect']})", flush=True)
            for n in notes:
                print("       ", n[:230], flush=True)
