"""How many executions each check runs. A unit is weight executions of one case in
one configuration; the counts are fixed so that a verdict never depends on a clock."""
import glob, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def harnesses():
    return sorted(os.path.basename(f)[:-4] for f in glob.glob(HERE + "/h/c*.cpp"))


QUICK = 60000          # executions (x weight) per case and configuration
ALL_QUICK = 6000       # the same for C22 and C23, which run every case
SLOW = {"scope_reports_exceptions": 1000, "transfer_stack_depth": 20, "trace_tree_threads": 4, "trace_tree": 4, "trace_chain": 4,
        "oom_when_all": 10, "oom_tasks": 4, "stack_await_loops": 60, "stack_deep_chains": 40, "stack_chains_completed_elsewhere": 40, "stack_conversations": 40, "mix_small": 2, "mix_tree": 2, "mix_two_roots": 2}
THOROUGH = 12
NO_MEMCHECK = {"scope_reports_exceptions", "transfer_stack_depth", "trace_tree_threads", "trace_tree", "trace_chain",
               "stack_await_loops", "stack_deep_chains", "stack_chains_completed_elsewhere", "stack_conversations"}
MEMCHECK = 16          # C22 under valgrind's memcheck: rounds over all cases of each harness


def count(prop, tier, case):
    n = ALL_QUICK if prop in ("C22", "C23") else QUICK
    n = n // SLOW.get(case, 1)
    return n * THOROUGH if tier == "thorough" else n


RULE = ("One evaluation is one execution of the real library: a client program generated from the execution's seed, run "
        "under a schedule, weak-memory read choices and injected spurious failures chosen from the same seed, with all oracles "
        "on. Non-trivial: at least two threads and two context switches (or, for a sequential case, a completed program). "
        "Distinct: different hash of the sequence of (thread, operation, address, value read) at its synchronisation "
        "operations (or of the generated program and its event log).")
ASSUMPTIONS = [
    "the seeded client programs stay within the library's documented use",
    "the C++ memory model as implemented by rt/schedrt.cpp (vector clocks, per-location modification order, load buffering not modelled)",
    "g++ -fsanitize=thread reports every access of harness and library code; uninstrumented libstdc++ code is not checked",
    "coverage is a sample of schedules and programs: exploration, not proof",
]
