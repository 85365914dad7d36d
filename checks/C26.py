from vf.driver import Check, H
CHECK = Check("C26", ["C26.cc"], ["rst/timer/one_shot_timer.cc", "rst/task_runner/task_runner.cc", "rst/threading/barrier.cc"],
    [H("History3"), H("History6", proof=False, iters=20000), H("AnyNumberOfStarts"), H("FireNowNotRunning"), H("StartNull"), H("RunnerAtStart")],
    defines=["-fno-access-control"],
    assumptions=["the runner executes each posted callback at most once per posting and not during destruction of the timer", "fewer than 2^63 Starts of one timer"])
