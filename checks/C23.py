from vf.driver import Check, H
CHECK = Check("C23", ["C23.cc"], ["rst/task_runner/task_runner.cc", "rst/task_runner/thread_pool_task_runner.cc", "rst/threading/barrier.cc"],
    [H("ItemOrder"), H("ItemMoves"), H("Posting"), H("Schedules", proof=False, iters=30000, note="bounded: up to 4 workers, 3 posting threads, 64 posts")], san=["-fsanitize=thread", "-fno-omit-frame-pointer"], native_files=["fibers.cc"],
    defines=["-fno-access-control"], native_secs=40, level="exploration",
    rule="a run draws from a seed: the configured threads (1-4), the keep-alive time, up to 64 posts by up to 3 threads and by tasks (delays, numbers of executions), and at every mutex, condition variable and thread operation which thread continues, "
         "whether a timed wait ends, a waiter wakes spuriously and the clock advances; data races are found by ThreadSanitizer. Distinct: a different order of threads; non-trivial: something was posted",
    assumptions=["tasks terminate without exception", "due times do not overflow", "preemption elsewhere than at a mutex, condition variable, thread or clock operation matters only where there is a data race"])
