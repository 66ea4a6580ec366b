"""Which contracts decide which property."""

FITS = ("valid", "overhang", "shrink")
COMBOS = [(f, c) for f in FITS for c in (True, False)]


def units(prop):
    u = []
    if prop == "C22":
        for f in ("expand_roi_to_grid", "expand_request_roi_to_grid", "expand_write_roi_to_grid"):
            u.append(("layer_a", "c22", (f,)))
    if prop in ("C01", "C02", "C06", "C07"):
        u += [("layer_a", "levels", c) for c in COMBOS]
    if prop in ("C01", "C02", "C03", "C04", "C06", "C07"):
        u += [("layer_a", "stride", c) for c in COMBOS]
    if prop in ("C02", "C03", "C04"):
        u += [("layer_a", "level_of", c) for c in COMBOS]
        u += [("layer_a", "upstream", c) for c in COMBOS]
    if prop in ("C02", "C04"):
        u += [("layer_a", "downstream", c) for c in COMBOS]
    if prop in ("C02", "C04", "C05"):
        u += [("layer_a", "subgraph", (f, r)) for f in FITS for r in (True, False)]
    if prop in ("C04", "C05"):
        u += [("layer_h", "construct", ()), ("layer_h", "upstream", ()), ("layer_h", "downstream", ())]
    if prop in ("C05", "C07"):
        u += [("layer_h", "roots", ())]
    if prop == "C05":
        u += [("layer_a", "initial", (f,)) for f in FITS]
    if prop == "C06":
        u += [("layer_a", "identity", ())]
    if prop in ("C07",):
        u += [("layer_h", "counts", ())]
        u += [("layer_a", "counts", c) for c in COMBOS]
    if prop in ("C01", "C02", "C03", "C06"):
        u += [("layer_a", "lemmas", (f,)) for f in FITS]
    if prop in ("C08", "C11", "C12"):
        u += [("layer_b", "initial", ()), ("layer_b", "success", ()), ("layer_b", "failure", ())]
    if prop in ("C08", "C09", "C10", "C11", "C12", "C21"):
        u += [("layer_c", "construct", ()), ("layer_c", "release", ()), ("layer_c", "acquire", ())]
    if prop == "C12":
        u += [("layer_c", "ready", ()), ("layer_c", "progress", ())]
    if prop == "C10":
        u += [("layer_c", "done", ())]
    if prop == "C11":
        u += [("layer_c", "orphans", ())]
    if prop == "C16":
        u += [("layer_d", "client", ()), ("layer_d", "worker_loop", ())]
    if prop == "C17":
        u += [("layer_d", "streams", ()), ("layer_d", "tcp_server", ()), ("layer_d", "tcp_client", ())]
    if prop == "C13":
        u += [("layer_e", "loop", ()), ("layer_e", "run", ()), ("layer_e", "book", ()), ("layer_e", "handlers", ()), ("layer_e", "lost", ())]
    if prop == "C14":
        u += [("layer_e", "handlers", ()), ("layer_e", "get_msg", ()), ("layer_e", "loop", ()), ("layer_e", "run", ()), ("layer_e", "recruit", ())]
    if prop == "C15":
        u += [("layer_e", "loop", ()), ("layer_e", "run", ()), ("layer_e", "truth", ()), ("layer_e", "collect", ()), ("layer_e", "completed", ()), ("layer_e", "recruit", ()), ("layer_e", "handlers", ()), ("layer_e", "lost", ())]
    if prop == "C20":
        u += [("layer_e", "serial", ()), ("layer_e", "collect", ())]
    if prop == "C18":
        u += [("layer_f", "context", ()), ("layer_f", "worker", ())]
    if prop == "C19":
        u += [("layer_g", "resize", ()), ("layer_g", "reap", ()), ("layer_g", "pools", ()), ("layer_g", "worker", ())]
    if prop in ("C02", "C03", "C05", "C09", "C15", "C16", "C19", "C20", "C21"):
        u += [("layer_a", "task", ())]
    return u


from .meta import meta  # noqa: E402,F401
