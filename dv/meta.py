"""What is trusted and assumed, per property (goes into the evidence files)."""
import os, re

EXTRACTION = (
    "On every run the modules of /repo/daisy are parsed, rewritten mechanically (dv/instr.py) and executed by CPython on "
    "symbolic values; nothing is re-written by hand. Rewritten: for/while loops and comprehensions (run on one generic "
    "element when the collection is symbolic), container displays, item access, `in`, `not`, boolean operators, `is`, "
    "f-strings, str.join, attribute stores and calls go through the engine. Dropped: annotations; logging calls have no "
    "effect; generators are evaluated eagerly (context managers excepted); async/await is executed synchronously; "
    "third-party modules (funlib.geometry, tornado, dill, pickle, struct, queue, multiprocessing, threading, urllib) are "
    "replaced by stubs with the assumed contracts listed as trusted.")

ENGINE = [
    "dv/ (the rewriting, the symbolic execution and the translation to SMT), CPython, z3 4.x, cvc5",
    "a 'discharged' answer of either solver; finite counter-models are only used to refute",
]
PYTHON = ["integers are mathematical (as in Python); no recursion limit, no memory exhaustion, no KeyboardInterrupt at "
          "arbitrary places (C16 treats an interrupt in user code)"]

GEO = ["funlib.geometry Coordinate and Roi: contracts written from its source (component-wise arithmetic, division "
       "truncates towards zero, ROIs are half-open boxes, intersect of disjoint ROIs is empty); the number of dimensions "
       "is arbitrary but at least 1",
       "funlib.math.cantor_number is injective on tuples of natural numbers (it uses floats: collisions are possible "
       "beyond 2**53)"]
GRID = ["the task is valid: write ROI non-empty and contained in the read ROI, total ROI of non-negative size (what the "
        "statement presupposes; a Task with other ROIs is a usage error)"]
REQ = ["tasks are registered under unique ids and the requirement relation has no cycles (a Task requires tasks that "
       "exist already); the graph queries (layer H) use the contracts of the per-task queries proved in the same run "
       "(layer A)"]
GRAPH = ["contract of DependencyGraph (proved for C02-C07, layers A and H): downstream is the inverse of upstream, no block "
         "twice, no cycles (a rank exists), num_blocks is exact, roots are the blocks without upstream"]
SURF = ["contract of ReadySurface (proved in the same run, layer B)"]
SETS = ["finite sets: a size is zero exactly for the empty set and changes by one when one element enters or leaves; sums "
        "over blocks are not otherwise reasoned about",
        "Reach (transitive dependency) is the least relation closed under the dependency; its induction principle is "
        "instantiated by hand at the places listed in layer_b.reach_induction; minimal-rank argument for 'a first block "
        "that ...' in C11 and C12",
        "container axioms: len() is zero exactly for empty containers, a queue returns an element it contains"]
USER = ["check functions and process functions are arbitrary but do not modify daisy's internal state; a check function "
        "may answer differently on each call and may raise"]
ACTOR = ["the dispatcher thread calls the scheduler and the handlers one at a time (that is how Server is written; single "
         "threaded event loop); thread safety is not part of any statement"]
NET = ["tornado IOStream: write sends all bytes or reports StreamClosedError, read_bytes(n) returns exactly n bytes or "
       "raises StreamClosedError, no byte is changed or invented; IOLoop.add_callback runs the callbacks one after the "
       "other in the order in which they were added",
       "pickle and struct: loads(dumps(m)) equals m, unpack(pack(n)) equals n in range; messages below 4 GiB",
       "queue.Queue is a FIFO"]
SRV = ["contract of Scheduler used by the server (proved for C08-C12): counts are non-negative, a handed-out block counts "
       "as processing, done tasks stay done, acquire_block returns None only if no block of the task is ready",
       "contract of WorkerPool.* (C19) and TCPServer.* (C17)",
       "stream.closed() does not change during one call of get_lost_blocks; 'dictionary changed during iteration' errors "
       "are not modelled",
       "the tasks passed to Server.run_blockwise are closed under requirement (unit collect proves that daisy.run_blockwise "
       "passes such a set)"]
CLOCK = ["the event-loop unit runs the real loop for four iterations with an arbitrary stop/message/count behaviour per "
         "iteration; since the state before each iteration is arbitrary (within the invariant), one iteration is the "
         "inductive step, the others check the timers"]
CTX = ["urllib.parse quote/unquote (and the _plus forms): unquote is the inverse of quote, the result of quote contains only "
       "letters, digits, '%' and '_.-~' (and the characters given as safe)",
       "every value has a text (str()); os.environ is one mapping from text to text; the store of a context is one dict"]
POOLS = ["multiprocessing.Process: is_alive/exitcode/terminate/join as documented; liveness does not change during one call",
         "dictionaries keep the order of insertion, which is the order of birth of workers; slicing takes the elements "
         "between two ranks; the number of workers of a set changes by one when one enters or leaves",
         "the counter of worker ids is atomic under its lock"]
CLIENT = ["the user code inside `with client.acquire_block()` may set the status, raise anything, or be interrupted at any "
          "statement of its own"]

PARTS = {
    "C01": (GEO + ["sums of block counts are not used here"], GRID), "C02": (GEO, GRID),
    "C03": (GEO, GRID + ["induction on the difference of levels (the obligations prove the step: blocks in conflict have "
                         "different levels, and there is a block of the level below in between that conflicts with both "
                         "or is adjacent; the induction itself is not mechanised)"]),
    "C04": (GEO, GRID + REQ), "C05": (GEO, GRID + REQ), "C06": (GEO, GRID), "C07": (GEO, GRID + REQ), "C22": (GEO[:1], []),
    "C08": (SETS, GRAPH + SURF + USER), "C09": (SETS, GRAPH + SURF + USER),
    "C10": (SETS, GRAPH + SURF + USER), "C11": (SETS, GRAPH + SURF + USER),
    "C12": (SETS, GRAPH + SURF + USER + ["termination: finitely many blocks, each handed out at most 1+max_retries times "
                                         "(C09); the unbounded-run argument itself is not mechanised"]),
    "C21": (SETS, GRAPH + SURF + USER),
    "C13": (NET[2:], SRV + ACTOR + CLOCK), "C14": (NET[2:], SRV + ACTOR + CLOCK), "C15": (NET[2:], SRV + ACTOR + CLOCK),
    "C16": ([], CLIENT), "C17": (NET, ["one reader per connection"]), "C18": (CTX, []), "C19": (POOLS, []),
    "C20": (SETS[2:], SRV[:1] + SRV[3:] + USER),
}


def meta(prop):
    trusted, assumed = PARTS[prop]
    return dict(trusted=ENGINE + trusted, assumptions=PYTHON + assumed, extraction=EXTRACTION)
