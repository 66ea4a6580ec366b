"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
DG="daisy/dependency_graph.py"
G="BlockwiseDependencyGraph"
p("C01","The blocks of a task tile the volume, each place exactly once",
"For every task whose read ROI contains its non-empty write ROI, the write ROIs of the blocks that are generated for it never overlap each other. With fit \"overhang\" or \"shrink\" they cover every point of the total ROI minus the context, and with fit \"valid\" they cover every point of it that lies in a grid cell (write ROI size, aligned to its beginning) which fits completely. No block is generated twice, and a total ROI that is too small yields no blocks instead of an error.",
["inputs","configurations"],"all total/read/write ROIs in any number of dimensions (any offset, any context including asymmetric, total size not a multiple of the block size, smaller than a block, or smaller than the stride), all three fits, read_write_conflict on and off",
"The tests enumerate eight 1D/2D configurations and compare block counts with a constant; the tiling is decided by integer rounding that depends on the remainders of the sizes, for unboundedly many sizes and dimensions.",
[DG],[(G+".level_blocks / _compute_level_block_offsets / compute_level_offsets / compute_level_stride",DG),("rounding_term",DG)],observe=["ROIs of the blocks returned by level_blocks() over all levels, and by the scheduler"])
p("C02","Every block has the ROI shape its task and fit mode promise",
"Every block of a task, no matter through which query it is obtained, has a write ROI aligned to the block grid of the total ROI, and a read ROI that is its write ROI grown by exactly the context of the task (the margin between task read ROI and write ROI). With fit \"valid\" and \"shrink\" read and write ROI lie inside the total ROI and the total ROI minus context, with \"shrink\" the write ROI is exactly the part of the grid cell inside, and with \"valid\" and \"overhang\" the ROIs have the size that was given for the task.",
["inputs","configurations"],"all ROIs, contexts, fits and dimensions, and blocks obtained by enumeration, as roots, as upstream or downstream of another block, or by a region query",
"Tests check the ROIs of a handful of interior blocks; out-of-bounds or distorted blocks appear only at boundaries for particular remainders, and only through particular queries.",
[DG,"daisy/block.py"],[(G+".shrink, fit_block, inclusion_criteria",DG),(G+".upstream/downstream/get_subgraph_blocks build blocks from offsets",DG)])
p("C03","Blocks in read/write conflict are always ordered by dependencies",
"If a task has read_write_conflict set, then for any two different blocks of it where the write ROI of one overlaps the read ROI of the other, one of them is a direct or transitive upstream dependency of the other. Hence two such blocks are never ready to be processed at the same time. The dependency relation has no cycles.",
["inputs","configurations","schedules"],"all pairs of blocks of all tasks (any ROIs, context, fit, dimensions)",
"The safety of concurrent processing rests on a stride/level argument over all pairs of blocks, including boundary blocks with missing neighbours; the tests look at one 6x6 and three 1D examples.",
[DG],[(G+".compute_level_stride",DG),(G+".compute_level_offsets (order of levels)",DG),(G+".get_conflict_offsets, compute_level_conflicts, upstream",DG)])
p("C04","Upstream and downstream queries are exact inverses of each other",
"For any two blocks A and B of the tasks of a run (same task or different tasks), B is reported as upstream of A if and only if A is reported as downstream of B. Every block reported by such a query is a block of the task's enumeration (same identity and ROIs), and is reported once.",
["inputs","configurations"],"all pairs of blocks of all pairs of chained tasks with arbitrary, different, ROIs, contexts and fits",
"One test compares both directions for one 1D single-task configuration; the two directions are computed by independent index arithmetic.",
[DG],[(G+".upstream / downstream",DG),(G+".get_subgraph_blocks",DG),("DependencyGraph.upstream / downstream",DG)])
p("C05","A chained task depends on exactly the blocks that write what it reads",
"If task T requires task U, then the upstream blocks in U of a block of T are exactly the blocks of U whose write ROI overlaps the read ROI of that block, and the downstream blocks in T of a block of U are exactly the blocks of T whose read ROI overlaps its write ROI. Blocks without any upstream block, in any task, are exactly the ones that are available from the beginning. Tasks that were not declared as required never contribute dependencies.",
["inputs","configurations"],"all pairs of chained tasks with arbitrary total ROIs (equal, overlapping, nested, disjoint), block sizes, contexts, fits and dimensions, and arbitrary task DAGs",
"The tests use one chained 2D pair with equal block sizes and aligned grids; misalignment, asymmetric context, overhang and partial overlap of the total ROIs take different paths through the rounding.",
[DG],[(G+".get_subgraph_blocks",DG),("DependencyGraph.__add_task, upstream, downstream, roots",DG)])
p("C06","Block identities are unique and reproducible",
"Two blocks of the same task have the same identity if and only if they cover the same grid cell, no matter which query produced them, and blocks of different tasks never share an identity. Two blocks compare equal, and hash equal, exactly if they have the same identity. Neither processing nor copying a block, nor sending it to a worker and back, changes its identity.",
["inputs","configurations"],"all blocks of all tasks (any ROIs, non-negative context, fit, dimensions)",
"The identity is an arithmetic function of the position; collisions would only show for particular offsets and sizes, tests compare about forty fixed identities.",
["daisy/block.py",DG],[("Block.__compute_block_id, __eq__, __hash__","daisy/block.py")])
p("C07","Announced block counts equal the blocks that are generated",
"For every task, the announced total number of blocks equals the number of blocks that enumerating the task generates, and the announced number of initially available blocks equals the number of blocks that are handed out initially. Both are zero for a total ROI too small to hold a block. The counts do not depend on other tasks of the run, except for blocks that wait for upstream tasks.",
["inputs","configurations"],"all ROIs, contexts, fits, conflicts and dimensions",
"Counts and enumeration are computed by two different formulas that have to agree for all remainders; a mismatch makes a run hang or stop early. Tests compare them for six 1D configurations.",
[DG],[(G+".num_blocks, _num_level_blocks, num_roots",DG),(G+".level_blocks, root_gen",DG)])
S="daisy/scheduler.py"; R="daisy/ready_surface.py"
p("C08","No block is handed out before everything it depends on succeeded",
"At any point of any run, when the scheduler hands out a block for processing, every upstream block of it (in its own task and in required tasks) has been released as successful before. A block with a failed, orphaned, unfinished or retrying upstream block is never handed out. Releasing a block makes exactly those blocks available whose last missing dependency it was.",
["histories","schedules","inputs"],"all sequences of acquiring and releasing blocks (success, failure, retry, skip, any order and interleaving between tasks) on any dependency graph",
"Tests replay a few fixed orders on small graphs; the incremental bookkeeping (forgetting finished blocks as early as possible) must be right for every order of completion and failure.",
[S,R,"daisy/processing_queue.py"],[("ReadySurface.mark_success / mark_failure",R),("Scheduler.release_block, __update_ready_queue, acquire_block",S)],
state=[("surface","successful blocks with undecided downstream blocks",R),("boundary","failed and orphaned blocks",R)])
p("C09","A block is processed by one holder at a time and at most 1+max_retries times",
"A block that was handed out is not handed out again before it was released as failed, and a block that was released as successful, permanently failed or orphaned is never handed out again. A block released as failed is made available again exactly as long as it was retried fewer than max_retries times, after that it counts as failed. Each block is thus handed out at most 1+max_retries times.",
["histories","schedules"],"all sequences of acquire and release on any graph, any max_retries including 0",
"Tests cover one failing block with max_retries 0 and 2; the guarantee is about all histories, including interleaved retries of several blocks and tasks.",
[S,"daisy/processing_queue.py",R],[("Scheduler.acquire_block / release_block",S),("ProcessingQueue.get_next","daisy/processing_queue.py"),("block_retries","daisy/processing_queue.py")])
p("C10","The state counters of a task always account for every block exactly once",
"After every operation, for each task, the counters for ready, processing, completed, failed and orphaned blocks equal the number of blocks in that state, none of them (nor the pending count, i.e., the remainder) is negative, and together with pending they add up to the announced total. Skipped blocks are those whose completion was found by the check function instead of by processing. A task reports to be done if and only if every block of it is completed, failed or orphaned.",
["histories","inputs"],"all sequences of acquire and release operations (success, failure, retry, skip) on any dependency graph over several tasks",
"Tests check a few counters at the end of fixed runs. The counters are updated incrementally at many places, an error in any of them makes the run hang or stop early only in particular histories.",
[S,"daisy/task_state.py",R],[("Scheduler counters",S),("TaskState.pending_count / is_done","daisy/task_state.py"),("ReadySurface.mark_failure returns new orphans",R)])
p("C11","A permanent failure orphans exactly the blocks that depend on it",
"When a block fails permanently, exactly the blocks that depend on it directly or transitively (within and across tasks) become orphaned, each counted once no matter how many failed blocks it depends on, and none of them is ever handed out. All other blocks are not affected and are still processed. A failed block that has retries left orphans nothing.",
["histories","inputs"],"all histories with any number of failures, in any order, on any dependency graph",
"Tests contain failing first blocks of one task; double counting or missing orphans depends on the order of successes and failures between several tasks.",
[R,S],[("ReadySurface.mark_failure",R),("Scheduler.release_block",S)])
p("C12","The scheduler always makes progress until all blocks are decided",
"At any point of any run, either every block is completed, failed or orphaned, or at least one block is ready or being processed. Every block whose upstream blocks all succeeded is available (or was handed out), and an available block is handed out on request for its task. Therefore every run in which each handed-out block is eventually released ends with all tasks done.",
["histories","schedules","inputs"],"all reachable scheduler states for all task graphs",
"A lost wake-up blocks a run forever, but only for particular orders of completion; tests execute a handful of orders.",
[S,R,DG],[("ReadySurface.mark_success returns newly ready nodes",R),("Scheduler.__init__ roots, get_ready_tasks, acquire_block",S),("ProcessingQueue","daisy/processing_queue.py")])
SV="daisy/server.py"; BK="daisy/block_bookkeeper.py"
p("C13","Lost blocks return to the scheduler, late and foreign returns are ignored",
"A block sent to a worker is returned to the scheduler exactly once per hand-out: by the worker that received it, or, if the connection to that worker closed first, as failed by the server. A return (success or failure) of a block that is not outstanding, or that comes from a different worker than it was sent to, changes nothing. The server always knows every outstanding block and the worker that holds it.",
["histories","fault_sequences","schedules"],"all interleavings of requests, returns, duplicate returns, failures and closed connections of any number of workers",
"Races between a closing connection and a late return occur only under particular timings; no test returns a block late, twice or from the wrong worker.",
[BK,SV],[("BlockBookkeeper.notify_block_sent/notify_block_returned/is_valid_return/get_lost_blocks",BK),("Server._safe_release_block, _check_for_lost_blocks, _handle_acquire_block",SV)],
state=[("sent_blocks","outstanding blocks and their receiving streams",BK)])
p("C14","Every request of a worker for a block is eventually answered correctly",
"A worker that requests a block for a task gets a block of this task that the scheduler hands out for it, or is asked to shut down only if no block of this task is ready or pending, or its request is kept and considered again later. No request is dropped, answered twice, or answered with a block that was given to another worker. Releases and failures reported by workers are always forwarded to the scheduler, and unknown messages are rejected.",
["histories","schedules"],"all task states and message sequences",
"Whether a request meets a ready, waiting or finished task depends on timing between workers; tests run three simple server scenarios.",
[SV],[("Server._handle_acquire_block, _get_client_message, pending_requests",SV),("Server._handle_client_message",SV)])
p("C15","The server stops when, and only when, all tasks are done, and reports the truth",
"Without an external stop request the server keeps running as long as any task has blocks that are neither completed, failed nor orphaned, and stops once there are none; each task is announced as started and as done at most once, and done only if it is. On any exit all workers are stopped and all connections are closed. A multi-process run reports success if and only if every block of every task, including required tasks, completed successfully.",
["histories","configurations"],"all task states over any number of tasks, at any time of the run",
"Tests check that two small runs end; early stop, wrong success report or a missing shutdown need particular combinations of task states.",
[SV,"daisy/convenience.py","daisy/task_state.py"],[("Server._check_all_tasks_completed, _event_loop, run_blockwise",SV),("run_blockwise, _run_blockwise","daisy/convenience.py")])
p("C16","A worker reports the true outcome of every block it received",
"A client that received a block hands it to the user code marked as being processed and returns it exactly once when the user code is left: as successful if the code finished normally without setting another status or set it to successful itself, and as failed if the code set another status, was left by an exception, or was interrupted before it set the status to successful. An exception in user code is additionally reported with its block, before the block is returned, and does not escape to the worker loop. If the server asks for shutdown or the connection is closed, the user code sees no block and nothing is returned.",
["inputs","fault_sequences"],"all ways to leave the processing code (normal, any exception, interrupt), all statuses the user can set, all replies of the server",
"The tests process one block successfully; the outcome matrix of exceptions and statuses is not covered.",
["daisy/client.py"],[("Client.acquire_block, release_block","daisy/client.py"),("Task._process_blocks","daisy/task.py")])
p("C17","Messages between server and workers arrive unchanged and in order",
"Every sequence of messages written to a connection is read at the other end as the same sequence of equal messages, independent of their sizes and of how the bytes are split, and each received message knows the connection it arrived on. A closed connection is reported as such to the sender and to the receiver, and never yields a partial or made-up message. Messages are handed to the application in the order in which they arrived, and so are connection errors (which take precedence over messages); internal disconnect messages are never handed over.",
["inputs","histories","fault_sequences"],"all message contents up to the frame limit, all sequences, a connection closed at any point",
"One test sends five small messages over one connection.",
["daisy/tcp/tcp_stream.py","daisy/tcp/tcp_server.py","daisy/tcp/tcp_client.py"],[("TCPStream._send_message / _get_message","daisy/tcp/tcp_stream.py"),("TCPServer.handle_stream, get_message","daisy/tcp/tcp_server.py"),("TCPClient._receive, get_message, send_message","daisy/tcp/tcp_client.py")])
p("C18","The context a worker receives equals the context it was given",
"For every set of context variables, encoding the context into the environment variable and decoding it in the worker yields the same variables with the same values (as text). Variables set after construction that could not be transmitted are rejected. A worker receives a copy that additionally holds its own worker ID, and changing it does not change the context of other workers.",
["inputs"],"all variable names and values (task IDs, host names, paths), any number of variables",
"The tests transmit task names without special characters.",
["daisy/context.py","daisy/worker.py"],[("Context.to_env / from_env / __setitem__ / copy","daisy/context.py"),("Worker.__init__","daisy/worker.py")])
WP="daisy/worker_pool.py"
p("C19","The worker pool keeps the requested number of workers",
"After setting the number of workers of a pool, the pool holds exactly this many workers: the missing ones are started, or the youngest ones are stopped and the others keep running. Workers that died are removed and replaced by the same number of new ones, workers that finished normally are neither removed nor replaced, and living ones are never touched; a worker whose blocks failed too often is replaced by one new worker. Worker IDs are never reused, and stopping a pool stops every worker in it.",
["histories","fault_sequences"],"all sequences of resizing, stopping, crashes, normal exits and block failures",
"Two tests cover one crash and one normal exit with at most two workers.",
[WP,"daisy/task_worker_pools.py","daisy/worker.py"],[("WorkerPool.set_num_workers, stop, reap_dead_workers, _start_workers, _stop_workers",WP),("TaskWorkerPools.check_worker_health, on_block_failure, recruit_workers","daisy/task_worker_pools.py"),("Worker.get_next_id, start, stop","daisy/worker.py")])
p("C20","Serial execution processes every block that can be processed",
"Without multiprocessing, every block of every task that is not skipped, failed for good or orphaned is passed to the process function of its own task, and the run ends only when no block is ready anymore. After each call the block is released exactly once, as failed if the process function set this status in this attempt and as successful otherwise. The returned task states are those of all tasks of the run.",
["inputs","histories"],"all task graphs, check functions, and outcomes of process functions including retries",
"One test runs a single 1D task in which every block succeeds.",
["daisy/serial_server.py"],[("SerialServer.run_blockwise","daisy/serial_server.py")])
p("C21","Blocks that pass their check are skipped, all others are processed",
"If a task has a check function, it is called for a block before the block is handed out: if the result is true, the block is not handed out but counted as completed and skipped, and its downstream blocks become available like after processing. If it is false or raises an exception, or if there is no check function, the block is handed out. Skipping never affects other blocks and never uses up retries.",
["inputs","histories"],"all check functions (any result or exception per block), any graph and history",
"No test uses a check function.",
[S],[("Scheduler.acquire_block, __precheck",S)])
p("C22","Grid alignment helpers return the smallest aligned enclosing ROI",
"Expanding a ROI to the block grid returns a ROI that contains the given one, begins and ends on the grid (for the public helpers: the grid of the write ROIs of a task, or multiples of the write size), and no smaller aligned ROI contains it. Expanding an aligned ROI returns it unchanged.",
["inputs"],"all ROIs with any offsets (including negative), sizes, block sizes and dimensions",
"The helpers are not tested at all; rounding of negative and unaligned coordinates decides.",
["daisy/blocks.py"],[("expand_roi_to_grid, expand_write_roi_to_grid, expand_request_roi_to_grid","daisy/blocks.py")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
