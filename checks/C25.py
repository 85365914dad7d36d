from vf.driver import Check, H
from vf.loops import LoopSpec
from vf.lists import rst_loops
import vf.threads as T
L = rst_loops(LoopSpec(T.pair_cands), r"^(harness_|verif_|\(anonymous namespace\)::)|std::condition_variable::wait<")
CHECK = Check("C25", ["C25.cc"], ["rst/threading/barrier.cc"],
    [H("Step", native=False), H("CountDown", loops=L, native=False), H("CountDownAndWait", loops=L, native=False), H("Wait", loops=L, native=False), H("Zero"), H("TooMany", loops=L), H("Threads", proof=False, iters=400)],
    native_files=["spurious.cc"], san=["-fsanitize=thread", "-fno-omit-frame-pointer"],
    assumptions=["condition_variable: a notification after a waiter began to wait wakes it; waits may end spuriously", "a barrier is destroyed only after every call on it has returned"])
