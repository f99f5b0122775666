"""What each check runs: which harnesses, how many runs, within which time."""
HARNESS = {"tree": "tree", "e2e": "e2e", "py": "py"}


def part(harness, qn, tn, qt=70, tt=3000):
    return {"harness": harness,
            "quick": {"runs": qn, "time": qt, "minimise": 40, "recheck": 240},
            "thorough": {"runs": tn, "time": tt, "minimise": 240, "recheck": 4000}}


TREE = lambda q=60000, t=4000000: part("tree", q, t)
E2E = lambda q=4000, t=400000, qt=50, tt=1500: part("e2e", q, t, qt, tt)
PLANS = {p: [TREE()] for p in ("C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15", "C16")}
for p in ("C01", "C02", "C04", "C05", "C06", "C08", "C10", "C11", "C15"):
    PLANS[p].append(E2E())
PY = lambda q=4000, t=300000, qt=80, tt=1500: part("py", q, t, qt, tt)
PLANS["C12"].append(PY())
PLANS["C13"] = [PY(8000, 1000000, 150, 3600)]
PLANS["C03"] = [E2E(12000, 2000000, 140, 3600)]
PLANS["C14"] = [E2E(12000, 2000000, 140, 3600)]
PLANS["C21"] = [E2E(3000, 400000, 120, 3600), PY(700, 60000, 35, 900)]

BASE_RULE = ("One case = one complete execution in the simulator, all of it drawn from one seed: the workload "
             "(parse tree or grammar and input, buffer size and count, reducers, start/destruction order, one process or one per stage), every scheduling "
             "decision (random walk or PCT, long stalls, late thread starts) and every fault. ")
E2E_RULE = ("One case = one complete execution of the real library in the simulator, all of it drawn from one seed: a grammar (random, or one of the repository's), "
            "its text (layout, comments, includes, optimised or not), inputs derived from it and mutated (truncated, bytes changed/inserted/deleted/duplicated/swapped, random, empty, trailing bytes), "
            "attached actions and their results, buffer size and count, reducers, and every scheduling decision and fault. ")
PY_RULE = ("Python part: one case = one complete execution of the Python package (context, listener adapters, library binding and the library below) in the simulator: grammar, inputs, "
           "handlers and what they return (None, tuples, lists, falsy objects, strings larger than a pipe), worker processes, buffer size, every scheduling decision of processes, threads and queue feeder threads, and every fault. ")
NT = "Non-trivial: the marker stream spans at least two hand-off buffers and at least two reductions are delivered (end-to-end part: at least two reductions are delivered). Distinct: a different hash over the whole event history."
RULE = {
    "C01": BASE_RULE + NT, "C02": BASE_RULE + NT, "C04": BASE_RULE + NT, "C05": BASE_RULE + NT,
    "C06": BASE_RULE + "A case is a sequence of 2 to 6 parses in one process with the resource ledger compared after each. " + NT,
    "C07": BASE_RULE + "A case is 1 or 2 runs killed at a random event or system call, then one that must work, all under one pid. Non-trivial: the killed run left named objects behind.",
    "C08": BASE_RULE + "A case injects 1 to 3 failing system calls (open, fstat, mmap, shm_open, ftruncate, sem_open, in the end-to-end part pthread_create; any call number; realistic errno), or failing allocations while Context::parse sets its stages up, and then retries without. Non-trivial: setup failed.",
    "C09": BASE_RULE + "A case runs 2 to 4 processes with confusable pids at once, some of them killed. Non-trivial: their parses really overlapped.",
    "C10": BASE_RULE + NT, "C11": BASE_RULE + "The input is rejected after a random number of markers. " + NT,  "C15": BASE_RULE + NT, "C16": BASE_RULE + NT,
    "C03": E2E_RULE + NT,
    "C21": ("One case = one complete execution in the simulator, all of it drawn from one seed: a grammar and its text, a first load, then loading from files that are missing, damaged, unreadable, wrong in a statement or define too many rules, or with failing, short or interrupted reads "
            "or failing allocations, through one of five interfaces, by 1 to 3 threads at once, then loading again after the cause is gone; every parser that was built is run on inputs and compared with the reference parser, and the resource ledger is compared after each step. "
            "Python part: a Python Context from such damaged files, which must raise an exception or have all rules, then a Context from the good ones that is started, parses and is stopped in the simulator. "
            "Non-trivial: a load was refused, or the parser that was built recognised a construct. Distinct: a different hash over the whole event history."),
    "C12": BASE_RULE + PY_RULE + NT,
    "C13": PY_RULE + "A case is a history: a context started with 1 to 7 workers, 1 to 4 parses (same file, rewritten file, other file, rejected input, missing file, failing handler), stopped and started again in between, a listener without a handler, a start followed by a stop. Non-trivial: a parse with at least two reductions.", "C14": E2E_RULE + "Inputs are padded so that they end at, just before or just behind a page boundary. " + NT,
}
PROBES = {0: "more buffers filled than exist (slots reused)", 1: "stream spans several buffers", 2: "stream ends exactly at a buffer boundary", 3: "several parallel reducers",
          10: "a process was killed", 11: "killed after the first buffer was handed out", 12: "killed process left named objects", 20: "setup failed and was reported (Python part: a missing input file)",
          40: "the input was rejected", 41: "rejected after reductions had been delivered", 43: "the input ends exactly at a page boundary", 44: "the input is empty",
          50: "a grammar file cut between two rules still loads", 51: "a grammar file cut where it must be refused", 52: "a load was refused", 53: "a Python context was refused",
          21: "a handler raised an exception", 22: "a listener without one of the handlers was attached", 23: "a system call failed in the master process", 30: "parses of several processes overlapped", 31: "a process was killed while others were parsing"}
COMPONENTS = {"tree": {"harness": "tree",
                       "real": ["BaseRunner.hpp", "Stage1Runner.hpp", "Stage2RunnerNonRecursive.hpp", "Stage3RunnerNonRecursive.hpp", "Stage2Runner.hpp", "Stage3Runner.hpp", "BaseListener.hpp/Exception.hpp as they use them (compiled from /repo, instrumented)"],
                       "stub": ["the parser: streams the markers of a generated tree through feed_callback as generated code does",
                                "operating system: threads, semaphores, shared memory, files, mmap, pids, usleep/sched_yield are simulated", "the Python adapters' value queues (serialised variant)"]},
              "e2e": {"harness": "e2e",
                      "real": ["Grammar, ATN, NFA, DFA, CompositeATN, LookaheadDFA, CharClass, Stream, Identifier, Util (grammar file to automata; run before the simulation starts, except for C21, where they are instrumented and run inside it)", "CodeGenEM64T and its helpers: the generated instructions themselves are executed",
                               "Context.hpp, Stage1Runner.hpp, Stage2RunnerNonRecursive.hpp, Stage3RunnerNonRecursive.hpp, BaseRunner.hpp, BaseListener.hpp (compiled from /repo, instrumented)"],
                      "stub": ["asmjit: a stand-in records the emitted instructions and a CPU interpreter executes them, checking memory bounds, stack discipline and the calling convention",
                               "operating system: threads, semaphores, shared memory, files, mmap, pids, usleep/sched_yield are simulated"]}}
COMPONENTS["py"] = {"harness": "py",
                    "real": ["context.py, listener.py, corelib.py, __init__.py: run unmodified by CPython", "PyCentaurus.cpp, the stage runners with the serialised hand-off, BaseRunner.hpp (compiled from /repo, instrumented)",
                             "Grammar to automata, CodeGenEM64T (as in the end-to-end part)"],
                    "stub": ["the multiprocessing module: processes are copies of the object graph, queues have feeder threads that pickle late and a bounded pipe", "os.getpid, os.system, the time module",
                             "asmjit and the CPU (as in the end-to-end part)", "operating system: threads, semaphores, shared memory, files, mmap, pids are simulated"]}
ASSUMPTIONS = [
    "Memory is sequentially consistent in the simulation; orderings weaker than that are covered only by the built-in happens-before race detector.",
    "The compiler is trusted: the code runs as g++ -O1 with ThreadSanitizer instrumentation calls, not as the shipped -O3 binary.",
    "Simulated POSIX calls behave as documented by POSIX/Linux man pages.",
    "A clean batch is evidence, not proof: only the sampled schedules, workloads and fault sequences were explored.",
]
HOOKS = {"guard": "CENTAURUS_SIM_BANK_SIZE", "source_commits": ["87ff2e0"], "enable": "-DCENTAURUS_SIM_BANK_SIZE=<expression> makes the generated parser and Context use hand-off banks of that many bytes instead of 8 MiB",
         "note": "undefined in every build of the repository: the constant is then what it always was"}
_SEARCH = "seeded search over thread/process schedules, hand-off buffer geometries and faults of the real stage runners inside one simulated process; "
TECHNIQUE = {
    "C01": _SEARCH + "every delivered reduction compared with the generated parse tree",
    "C02": _SEARCH + "children values compared bit for bit with the generated parse tree",
    "C03": "seeded search over grammars, inputs, schedules, hand-off buffer geometries and faults of the whole library inside one simulated process, generated code run on a simulated CPU; the recorded history of actions compared with an independent sequential evaluation of the same grammar",
    "C14": "seeded search over grammars, inputs ending around page boundaries, schedules and faults of the whole library inside one simulated process with checked file mappings, generated code run on a simulated CPU; results compared with an independent sequential evaluation",
    "C04": _SEARCH + "happens-before race detector and checked memory on every access",
    "C05": _SEARCH + "progress within a bounded number of steps under a fair schedule once injected stalls and interruptions stop",
    "C06": _SEARCH + "simulated kernel-resource and allocation ledger after each parse of a sequence",
    "C07": _SEARCH + "process killed at a random event or system call, then another run under the same pid must be correct",
    "C08": _SEARCH + "system calls, thread creations and allocations of the set-up fail, then a retry must succeed and nothing may be left",
    "C09": _SEARCH + "several simulated processes parsing at once, some killed",
    "C10": _SEARCH + "captured chunks compared with the trace the parser wrote",
    "C11": _SEARCH + "parser rejects after a random number of markers",
    "C12": _SEARCH + "one simulated process per stage with the serialised hand-off used by the Python library, and the real Python package with simulated processes and queues, compared with the values of a serial evaluation",
    "C13": "seeded search over histories of a Python context (start, parses, failures, stop), schedules of its simulated processes, threads and queue feeders, and faults, with the real Python package and library inside one simulated process; every parse compared with a serial evaluation, nothing left after stop",
    "C15": _SEARCH + "counter compared with the reductions delivered",
    "C21": "seeded search over damaged grammar files, failing, short and interrupted file operations, failing allocations and schedules of concurrent loads, with the real grammar loader and code generator (fully instrumented) inside the simulator; what is loaded is compared with the reference grammar, what is refused must leave no resource behind",
    "C16": _SEARCH + "ownership-notification history checked against a protocol automaton",
}
_NOTE = ("Sampled, not exhaustive: the executions counted in the evidence file were explored, and none violated the property. "
         "Trusted: the simulator's model of POSIX calls, g++'s instrumentation, sequential consistency plus the race detector; "
         "in the tree part the parser in front of the stages is a stub that streams generated traces; in the end-to-end part asmjit and the CPU are stand-ins.")
NOTE = {p: _NOTE for p in PLANS}
NA = {
    "C17": "pure function of pattern and string: no concurrency, time, I/O or fault for a simulation to vary",
    "C18": "pure function of grammar and input: the decision automata are built once by single-threaded code without I/O; nothing for a simulation to vary (their effect on parses is exercised by C03)",
    "C19": "pure algebra on character classes: no concurrency, time, I/O or fault for a simulation to vary",
    "C20": "pure function of the grammar text: single-threaded, no fault, schedule or history for a simulation to vary",
}
