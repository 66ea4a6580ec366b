"""Deductive stage: python3-vt dv/run.py PROP OUT.json [quick|thorough]"""
import importlib, json, multiprocessing as mp, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)

# property -> list of (layer module, function, args)
UNITS = {}


def units(prop):
    from dv import contracts

    return contracts.units(prop)


def work(q, mod, fn, args, prop, tier, limit, unroll=False):
    from dv.core import E, Unsupported, Infeasible
    from dv import fol

    E.unroll = unroll

    t0 = time.time()
    unsup = None
    extra = {}
    E.deadline = t0 + limit
    E.thorough = tier == "thorough"
    try:
        m = importlib.import_module("dv." + mod)
        extra = getattr(m, fn)(prop, *args) or {}
    except Unsupported as e:
        unsup = f"{mod}.{fn}{args}: {e}"
    except Infeasible:
        unsup = f"{mod}.{fn}{args}: infeasible at top level"
    except BaseException as e:
        unsup = f"{mod}.{fn}{args}: harness error {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
    obs = [dict(name=o.name, status=o.status, instances=o.instances, detail=o.detail, backend=o.backend,
                time_s=round(o.time, 3)) for o in E.obligations.values()]
    if not obs and not unsup:
        unsup = f"{mod}.{fn}{args}: no obligations"
    q.put(dict(unit=f"{mod}.{fn}{args}", obligations=obs, unsupported=unsup, stats=E.stats, covers=E.covers,
               functions=sorted(E.functions), extra=extra, wall_s=round(time.time() - t0, 2),
               loops=bool(E.loop_invariants), unit_args=(mod, fn, args)))


def confirm(got, again):
    """keep a refutation found behind a loop invariant only if unrolled loops show it as well; where the unrolled run
    could not be completed, the refutation stays"""
    bad = {o["name"]: o for o in again["obligations"] if o["status"] == "refuted"}
    for o in got["obligations"]:
        if o["status"] == "refuted":
            if o["name"] in bad:
                o["detail"] = "(confirmed with loops unrolled over collections of at most two elements) " + bad[o["name"]]["detail"]
            elif not again["unsupported"]:
                o["status"] = "undecided"
                o["detail"] = "(not confirmed with loops unrolled: the loop invariants may be too weak) " + o["detail"]


def main():
    prop, out = sys.argv[1], sys.argv[2]
    tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
    only = sys.argv[4] if len(sys.argv) > 4 else None
    us = units(prop)
    if only:
        us = [u for u in us if only in f"{u[0]}.{u[1]}{u[2]}"]
    limit = 450 if tier == "quick" else 1500
    t0 = time.time()
    ctx = mp.get_context("spawn")
    pending, running, res, first = list(us), [], [], {}
    ncpu = int(os.environ.get("DV_JOBS", "7"))
    while pending or running:
        while pending and len(running) < ncpu:
            mod, fn, args = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=work, args=(q, mod, fn, args, prop, tier, limit))
            p.start()
            running.append((p, q, time.time(), f"{mod}.{fn}{args}"))
        for r in list(running):
            p, q, ts, name = r
            got = None
            try:
                got = q.get(timeout=0.05)
            except Exception:
                if not p.is_alive():
                    try:
                        got = q.get(timeout=0.5)
                    except Exception:
                        got = dict(unit=name, obligations=[], unsupported=f"{name}: process died ({p.exitcode})",
                                   stats={}, covers={}, functions=[], extra={}, wall_s=time.time() - ts)
                elif time.time() - ts > (200 if name.startswith("confirm ") else limit + 60):
                    p.kill()
                    got = dict(unit=name, obligations=[], unsupported=f"{name}: time limit", stats={}, covers={},
                               functions=[], extra={}, wall_s=time.time() - ts)
            if got is not None:
                running.remove(r)
                if name.startswith("confirm "):
                    confirm(first.pop(name), got)
                else:
                    res.append(got)
                    if got.get("loops") and any(o["status"] == "refuted" for o in got["obligations"]):
                        # what a havoc'ed loop cannot show may be the invariant's fault: look for the same failure
                        # with the loops unrolled over small collections
                        mod, fn, args = got["unit_args"]
                        nm = f"confirm {got['unit']}"
                        first[nm] = got
                        q2 = ctx.Queue()
                        p2 = ctx.Process(target=work, args=(q2, mod, fn, args, prop, tier, 150, True))
                        p2.start()
                        running.append((p2, q2, time.time(), nm))
                p.join(1)
                if p.is_alive():
                    p.kill()
    obs, rank = {}, dict(discharged=0, undecided=1, refuted=2)
    for r in res:
        for o in r["obligations"]:
            x = obs.setdefault(o["name"], dict(name=o["name"], status="discharged", instances=0, detail="", backend={},
                                               time_s=0.0))
            x["instances"] += o["instances"]
            x["time_s"] = round(x["time_s"] + o["time_s"], 3)
            for k, v in o["backend"].items():
                x["backend"][k] = x["backend"].get(k, 0) + v
            if rank[o["status"]] > rank[x["status"]]:
                x["status"], x["detail"] = o["status"], f"[{r['unit']}] {o['detail']}"
    if prop == "C04":
        # exact geometric contracts suffice for C04, but are not necessary: missed by both directions alike, the
        # relations may still be inverse to each other
        for k in list(obs):
            o, p = obs[k], obs.get(k.replace("/downstream: ", "/upstream: "))
            if "/downstream: " in k and "closer than the level stride" in k and p and "discharged" not in (o["status"], p["status"]):
                for x in (o, p):
                    x["status"], x["detail"] = "undecided", "(both directions alike) " + x["detail"]
    vac = {}
    for r in res:
        for k, v in r["covers"].items():
            vac[f"{r['unit']}: {k}"] = v
    be = {}
    for r in res:
        for k, v in r["stats"].get("backends", {}).items():
            be[k] = be.get(k, 0) + v
    from dv import contracts

    meta = contracts.meta(prop)
    d = dict(
        property=prop, obligations=sorted(obs.values(), key=lambda o: o["name"]),
        unsupported=[r["unsupported"] for r in res if r["unsupported"]],
        vacuity=dict(points=vac, unreached=[k for k, v in vac.items() if v == 0]),
        functions=sorted({f for r in res for f in r["functions"]}),
        backends=be, solver_s=round(sum(r["stats"].get("solver_s", 0) for r in res), 2),
        paths=sum(r["stats"].get("paths", 0) for r in res),
        queries=sum(r["stats"].get("queries", 0) for r in res),
        units=[dict(unit=r["unit"], wall_s=round(r["wall_s"], 1), obligations=len(r["obligations"])) for r in res],
        wall_s=round(time.time() - t0, 1), **meta)
    json.dump(d, open(out, "w"), indent=1)
    if os.environ.get("DV_VERBOSE"):
        for o in d["obligations"]:
            print(f"{o['status']:11s} {o['instances']:4d} {o['time_s']:8.2f}s {o['name']} {o['backend']} {o['detail'][:1500]}")
        for u in d["unsupported"]:
            print("UNSUPPORTED", u)
        print("unreached", d["vacuity"]["unreached"], "backends", be, "paths", d["paths"], "wall", d["wall_s"])
        for u in d["units"]:
            print("  ", u)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    main()
