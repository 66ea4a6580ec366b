#!/usr/bin/env python3
"""check.py PROP -- decides one property of /repo's current working tree.

1. deductive stage (dv/run.py): obligations generated from the current source,
   discharged by z3/cvc5; an obligation is discharged, refuted or undecided.
2. run-time contract check (conc/conc.py): the same contracts evaluated on the
   uninstrumented code; gives replayable failing inputs, and is the bounded
   stand-in for everything the deductive stage does not cover.

Exit 0: held. Exit 1 + VIOLATION line: a contract fails on the real code
(replayed), or an obligation is refuted. Exit 3: nothing could be evaluated.
"""
import json, os, subprocess, sys, time, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
PYV = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
CONC = os.path.join(HERE, "conc", "conc.py")
DV = os.path.join(HERE, "dv", "run.py")
# properties whose concrete check starts processes or sockets: fewer parallel copies
HEAVY = {"C13", "C14", "C15", "C17", "C19"}


def start_conc(prop, seed, budget, out, thorough):
    cmd = [PY, CONC, "search", prop, str(seed), str(budget), out] + (["thorough"] if thorough else [])
    return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"),
                            env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), start_new_session=True), out, cmd


def wait(p, timeout):
    try:
        p.wait(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        pass
    try:
        os.killpg(p.pid, 9)  # also ends processes a check left behind
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def replays(prop, viol, path, cmd):
    """Writes the replay file and confirms the violation by replaying it."""
    with open(path, "w") as f:
        json.dump(dict(property=prop, kind=viol.get("kind"), message=viol.get("message"), case=viol.get("case"),
                       replay_cmd=f"{PY} {CONC} replay {prop} {path}", found_by=" ".join(cmd)), f, indent=1)
    for _ in range(3):
        p = subprocess.Popen([PY, CONC, "replay", prop, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, start_new_session=True)
        try:
            out, _e = p.communicate(timeout=150)
        except subprocess.TimeoutExpired:
            out = ""
        rc = p.poll()
        wait(p, 1)
        if rc == 1 and "violated" in (out or ""):
            return True
    return False


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" or "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="dvcheck.")
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rpath = os.path.join(HERE, "replays", prop + ".json")
    try:
        return run(prop, tier, seed, thorough, t0, tmp, rpath)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, thorough, t0, tmp, rpath):
    deadline = t0 + (3000 if thorough else 700)
    dvout = os.path.join(tmp, "dv.json")
    dvcmd = [PYV, DV, prop, dvout, tier]
    dv = None
    if os.path.exists(DV):
        dv = subprocess.Popen(dvcmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "dv.err"), "w"),
                              start_new_session=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    n = 1 if prop in HEAVY else (4 if thorough else 2)
    budget = 240 if thorough else 15
    runs = [start_conc(prop, seed + 7919 * i, budget, os.path.join(tmp, f"c{i}.json"), thorough) for i in range(n)]
    results, unconfirmed = [], []

    def collect(runs, limit):
        for p, out, cmd in runs:
            wait(p, limit)
            r = load(out)
            err = open(out + ".err").read()[-1500:]
            results.append((r, cmd, err))
            if r and r.get("violation"):
                if replays(prop, r["violation"], rpath, cmd):
                    return r["violation"]
                unconfirmed.append(r["violation"]["message"])
        return None

    viol = collect(runs, budget * 2 + 100)
    for p, _, _ in runs:
        wait(p, 0 if viol else 1)
    d, dverr = None, ""
    if dv is not None:
        # also with a failing input in hand, the obligations it fails are reported
        wait(dv, min(180, deadline - time.time()) if viol else max(5, deadline - 200 - time.time()))
        d = load(dvout)
        if d is None and not viol:
            dverr = open(os.path.join(tmp, "dv.err")).read()[-2000:]
    refuted = [o for o in (d or {}).get("obligations", []) if o["status"] == "refuted"]
    undecided = [o for o in (d or {}).get("obligations", []) if o["status"] == "undecided"]
    if not viol and (refuted or undecided or (d or {}).get("unsupported")):
        # bounded stand-in / search for a failing input: more seeds, more time
        more = 40 if not thorough else 300
        if refuted:
            more *= 2
        runs2 = [start_conc(prop, seed + 104729 * (i + 1), more, os.path.join(tmp, f"d{i}.json"), thorough)
                 for i in range(2 if prop in HEAVY else 6)]
        viol = collect(runs2, more * 2 + 100)
        for p, _, _ in runs2:
            wait(p, 0 if viol else 1)

    evaluated = sum(r["evaluations"] for r, _, _ in results if r)
    ok_conc = any(r for r, _, _ in results)
    write_evidence(prop, tier, seed, t0, d, dvcmd, results, viol, refuted, undecided, unconfirmed, dverr)
    if viol:
        print(f"{prop}: {viol['kind']}: {viol['message']}")
        r = load(rpath) or {}
        r.update(failed_obligations=refuted, undecided_obligations=[o["name"] for o in undecided],
                 unsupported=(d or {}).get("unsupported", []), checker_cmd=" ".join(dvcmd))
        with open(rpath, "w") as f:
            json.dump(r, f, indent=1, default=str)
        for o in refuted[:5]:
            print(f"{prop}: refuted obligation {o['name']}")
        print(f"VIOLATION property={prop} replay={rpath}")
        return 1
    if refuted:
        with open(rpath, "w") as f:
            json.dump(dict(property=prop, failed_obligations=refuted, checker_cmd=" ".join(dvcmd)), f, indent=1)
        for o in refuted[:5]:
            print(f"{prop}: refuted obligation {o['name']}")
        print(f"VIOLATION property={prop} replay={rpath} no-failing-input-found")
        return 1
    for line in known_findings(prop):
        print(line)
    nob = len((d or {}).get("obligations", []))
    if not ok_conc and (not nob or undecided):
        print(f"{prop}: nothing could be evaluated: {results[0][2][-300:] if results else ''} {dverr[-300:]}")
        return 3
    print(f"{prop}: held; {nob - len(undecided)}/{nob} obligations discharged, {evaluated} concrete evaluations, "
          f"{time.time() - t0:.1f}s")
    return 0


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            if line.startswith("KNOWN-FINDING: ") and f"property={prop} " in line:
                out.append(line.strip())
    except OSError:
        pass
    return out


def write_evidence(prop, tier, seed, t0, d, dvcmd, results, viol, refuted, undecided, unconfirmed, dverr):
    man = load(os.path.join(HERE, "MANIFEST.json")) or {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "exploration")
    rs = [r for r, _, _ in results if r]
    cov = dict(
        evaluations=sum(r["evaluations"] for r in rs),
        distinct_nontrivial=sum(r["distinct_nontrivial"] for r in rs),
        rule=next((r["rule"] for r in rs if r.get("rule")), "run-time contracts on generated cases, see conc/; a case "
                  "is non-trivial if it has at least two blocks/events, distinct by its parameters"),
        samples=[s for r in rs for s in r.get("samples", [])][:6],
        bounded_stand_in="the run-time contract evaluations are bounded (sampled) and never counted as proved",
    )
    other = {k: v for r in rs for k, v in (r.get("other") or {}).items()}
    if other:
        cov["concrete_detail"] = other
    if d:
        obs = d["obligations"]
        cov.update(
            obligations=len(obs), discharged=sum(o["status"] == "discharged" for o in obs),
            undischarged=[o["name"] for o in obs if o["status"] != "discharged"][:50],
            checker_cmd="cd /verif && " + " ".join(dvcmd[:3]).replace(dvcmd[2], prop) + " OUT.json",
            trusted_base=d.get("trusted", []), functions_under_contract=d.get("functions", []),
            functions_inlined=d.get("inlined", []), back_ends=d.get("backends", {}), solver_seconds=d.get("solver_s"),
            paths=d.get("paths"), vacuity_checks=d.get("vacuity", {}), unsupported=d.get("unsupported", []),
            obligation_names=[o["name"] for o in obs][:400], extraction=d.get("extraction", ""),
        )
    else:
        cov.update(obligations=0, discharged=0, checker_cmd=" ".join(dvcmd), trusted_base=[],
                   deductive_error=dverr or "deductive stage not available")
    if unconfirmed:
        cov["unconfirmed_observations"] = unconfirmed
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=(d or {}).get("assumptions", []), wall_s=round(time.time() - t0, 2),
              violations=1 if (viol or refuted) else 0)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
