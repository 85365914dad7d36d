from vf.driver import Check, H
from vf.loops import LoopSpec
from vf.lists import rst_loops
import vf.threads, vf.queue as Q
L = rst_loops(LoopSpec(Q.qcands, bounds=Q.queue_bounds, auto=False, quick=True), None, r"::heap_")
CHECK = Check("C22", ["C22.cc"], ["rst/task_runner/polling_task_runner.cc", "rst/task_runner/task_runner.cc", "rst/threading/barrier.cc"],
    [H(n, loops=L, native=False, budget=420) for n in ("Posts", "Runs")] + [H("Histories", proof=False)],
    defines=["-fno-access-control"], trusted=["std::function calls, copies and moves a function as a value", "std::push_heap, std::pop_heap and std::make_heap order elements by any strict weak order; that the comparator is one is proved"],
    assumptions=["due times do not overflow", "RunPendingTasks is called by one thread; a post by another thread acts where the mutex is free, as one of a task does", "tasks terminate without exception", "fewer than 2^62 posts", "a task is posted for fewer than 2^64 executions"])
