"""conc.py search PROP SEED BUDGET OUT [thorough] | conc.py replay PROP FILE"""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
MODULE = {}
for m, ps in dict(
    graph="C01 C02 C03 C04 C05 C06 C07 C22", sched="C08 C09 C10 C11 C12 C21", serial="C20",
    serverc="C13 C14 C15", clientc="C16", tcpc="C17", ctx="C18", pool="C19",
).items():
    for p in ps.split():
        MODULE[p] = m


def main():
    mode, prop = sys.argv[1:3]
    mod = __import__(MODULE[prop])
    if mode == "search":
        seed, budget, out = int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
        r = mod.search(prop, seed, budget, len(sys.argv) > 6)
        with open(out, "w") as f:
            json.dump(r, f, indent=1)
        return 0
    with open(sys.argv[3]) as f:
        d = json.load(f)
    from common import Viol, CaseTimeout, case_limit

    try:
        with case_limit(60):
            mod.replay(prop, d["case"])
    except Viol as v:
        print("violated:", v)
        return 1
    except CaseTimeout:
        print("violated: no answer")
        return 1
    print("holds")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
