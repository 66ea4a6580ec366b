"""C18: context transfer."""
import copy
from common import *

KINDS = {"ctx", "worker", "hang"}
ALPH = ["a", "Z", "0", "=", ":", "%", " ", "/", "\\", "'", '"', "é", "日", "\n", "\t", "%3D", "%3A", "%25", "&", "+", ",", ";", "#", "~", "-", "_", ".", "::", "==", "\x7f", "😀"]


def rs(rng, empty=True):
    return "".join(rng.choice(ALPH) for _ in range(rng.randint(0 if empty else 1, 5)))


SEEN = []


def record_context():
    """run as the worker"""
    from daisy.context import Context

    SEEN.append(Context.from_env())


def run_case(case):
    import daisy
    from daisy.context import Context

    try:
        import daisy.logging as dl

        kw = dict(case["kw"])
        if "logdir" in kw:
            dl.set_log_basedir(kw["logdir"])
        c = Context(**{k: v for k, v in kw.items() if k != "logdir"})
        exp = {"logdir": None, **kw}
        exp["logdir"] = c["logdir"]
        for k, v in case["sets"]:
            ok = not any(x in str(k) + str(v) for x in "=:")
            try:
                c[k] = v
            except RuntimeError:
                if ok:
                    raise Viol("ctx", f"setting {k!r}={v!r} was rejected")
            else:
                if ok:
                    exp[str(k)] = str(v)
                else:
                    exp[str(k)] = str(v)  # accepted: must then be transmitted correctly
        env = c.to_env()
        old = os.environ.get(Context.ENV_VARIABLE)
        os.environ[Context.ENV_VARIABLE] = env
        try:
            d = Context.from_env()
        finally:
            if old is None:
                del os.environ[Context.ENV_VARIABLE]
            else:
                os.environ[Context.ENV_VARIABLE] = old
        for k, v in exp.items():
            if d.get(k, None) != str(v):
                raise Viol("ctx", f"{k!r} was {str(v)!r}, worker receives {d.get(k, None)!r} (environment {env!r})")
        inner = [v for v in vars(d).values() if isinstance(v, dict)]
        if inner and set(inner[0]) - set(exp):
            raise Viol("ctx", f"worker receives additional variables {set(inner[0]) - set(exp)}")
        # copies are independent
        e = c.copy()
        e["worker_id"] = 5
        if c.get("worker_id") != exp.get("worker_id"):
            raise Viol("ctx", "changing a copy changes the original")
        if e["worker_id"] != "5":
            raise Viol("ctx", "variable not set")
        # workers
        import daisy.worker as dw

        class Proc:
            def __init__(self, target=None, **k):
                self.target = target

            def start(self):
                pass

        class MP:
            Process = Proc

            def __getattr__(self, n):
                import multiprocessing

                return getattr(multiprocessing, n)

        saved = dw.multiprocessing
        dw.multiprocessing = MP()
        try:
            base = c.copy()
            before = base.to_env()
            ws = [dw.Worker(int, base) for _ in range(2)]
            # what the process of a worker does, here with the environment of this process
            wk = dw.Worker(record_context, base)
            old = os.environ.get(Context.ENV_VARIABLE)
            base_dir, redirect = dl.get_log_basedir(), dl.redirect_stdouterr
            dl.redirect_stdouterr = lambda *a, **k: None
            SEEN.clear()
            try:
                if case.get("parent"):
                    os.environ[Context.ENV_VARIABLE] = "worker_id=of_parent:logdir=x"
                wk.process.target()
            finally:
                dl.set_log_basedir(base_dir)
                dl.redirect_stdouterr = redirect
                os.environ.pop(Context.ENV_VARIABLE, None)
                if old is not None:
                    os.environ[Context.ENV_VARIABLE] = old
        finally:
            dw.multiprocessing = saved
        if isinstance(exp.get("task_id", ""), str):
            for k, v in dict(exp, worker_id=wk.worker_id).items():
                if not SEEN:
                    raise Viol("worker", "the process of the worker does not run its function")
                if SEEN[0].get(k) != str(v):
                    raise Viol("worker", f"{k!r} is {str(v)!r} in the context of the worker, its process sees {SEEN[0].get(k)!r}")
        ids = [w.worker_id for w in ws]
        for w in ws:
            if str(w.context.get("worker_id")) != str(w.worker_id):
                raise Viol("worker", f"worker {w.worker_id} has the context of worker {w.context.get('worker_id')}")
            for k, v in exp.items():
                if k != "worker_id" and str(w.context.get(k)) != str(v):
                    raise Viol("worker", f"worker context lost {k}={v}")
        if base.to_env() != before or len(set(ids)) != 2:
            raise Viol("worker", "creating workers changed the given context")
    except (Viol, CaseTimeout):
        raise
    except Exception as e:
        raise Viol("ctx", f"{exc_text(e)} for {case}")
    return bool(case["kw"])


def cases(seed, thorough):
    rng = random.Random(f"C18-{seed}")
    for v in ["a=b", "a:b", "::1", "%3D", "/tmp/a:b=c", "", "%", "é", "a%3Ab", "x y"]:
        yield dict(kw={"logdir": v, "hostname": v, "port": 12, "task_id": v}, sets=[])
        yield dict(kw={v: "1"}, sets=[]) if v else dict(kw={"a": ""}, sets=[])
    while True:
        kw = {rs(rng, False): rng.choice([rs(rng), rng.randint(-5, 99999), None, 1.5]) for _ in range(rng.randint(0, 4))}
        if rng.random() < 0.5:
            kw["logdir"] = rs(rng)
        yield dict(kw=kw, sets=[(rs(rng, False), rs(rng)) for _ in range(rng.randint(0, 3))],
                   parent=rng.random() < 0.5)


def search(prop, seed, budget, thorough):
    return drive(cases(seed, thorough), run_case, KINDS, budget, seed, max_cases=None if thorough else 4000)


def replay(prop, case):
    return run_case(case)
