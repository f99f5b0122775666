#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so the statements are easy to edit).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=m.strip(),where=", ".join(files)) for m in mech.split(";")]))
    assert len(title)<=80,(id,len(title))
    P.append(d)
RUN=["src/core/BaseRunner.hpp","src/core/Stage1Runner.hpp","src/core/Stage2RunnerNonRecursive.hpp","src/core/Stage3RunnerNonRecursive.hpp","src/core/Stage2Runner.hpp","src/core/Stage3Runner.hpp"]
E2E=["src/core/Context.hpp","src/core/CodeGenEM64T.cpp","src/core/CodeGenUtilsEM64T.hpp","src/core/Grammar.cpp","src/core/LookaheadDFA.hpp"]
PY=["src/python/centaurus/context.py","src/python/centaurus/listener.py","src/python/centaurus/corelib.py","src/pydll/PyCentaurus.cpp"]
p("C01","Every recognised construct is reduced exactly once",
  "For an accepted input, every grammar construct recognised in it is reported to the reduction listener exactly once per parse, with its own symbol id and its exact start and end offsets, and only after every construct nested inside it has been reported. Nothing else is ever reported. This holds however the construct is split over hand-off buffers, for every buffer size and count, every number of parallel reducers and every thread interleaving, for both the recursive and the non-recursive reducers.",
  ["schedules","inputs","configurations"],
  "all parse trees (any nesting, width, symbol ids up to 32767, offsets up to 2^48-1), buffer sizes from one entry up, 1..N buffers, 1..N reducers, all interleavings of the stage threads",
  "The repository's tests never start the three-stage pipeline (the tests that would, CodeGenTest/JITTest, need asmjit and a JIT and use 8 MB buffers that one test input never fills); no test varies scheduling or buffer boundaries.",
  RUN,"Stage 1 writes a start/end marker stream into banks; Stage 2 reduces what is complete inside one bank; Stage 3 merges banks in number order and reduces what spans them")
p("C02","An action receives exactly its direct children's results, in input order",
  "Whenever a construct is reduced, the values passed to the action are exactly the non-null values returned by the actions of its direct children, in left-to-right input order, unchanged to the last bit, and their count is right. Children reduced in parallel by different workers, children whose action returned null, and children from other hand-off buffers are treated alike.",
  ["schedules","inputs","configurations"],
  "all parse trees and all assignments of 64-bit action results (including null) to constructs, all splits over buffers, reducers and interleavings",
  "Value routing depends on which worker reduced which child and where buffer boundaries fall; no existing test runs an action at all.",
  RUN,"per-bank stacks of start markers, end markers, values and tags; push_value/append_value merge value runs across banks; value arrays handed to the listener")
p("C03","A parallel parse equals sequential evaluation of the grammar",
  "For any loadable grammar and any input its root accepts, running the parser with actions attached calls exactly the actions, on exactly the matched text and children results, that a sequential left-to-right evaluation of the grammar would. The outcome does not depend on the number of workers, on the position of hand-off buffer boundaries or on thread timing.",
  ["programs","inputs","schedules","configurations"],
  "random grammars (alternation, quantifiers, recursion, regular-expression terminals, whitespace skipping) x random sentences x workers 1..N x buffer sizes x interleavings",
  "JITTest/CodeGenTest are excluded from the buildable test suite, check only acceptance, and never look at actions, values or spans.",
  E2E+RUN,"grammar -> ATN -> lookahead DFA -> generated machine code -> marker stream -> parallel reduction -> user callbacks through the C++ context")
p("C04","Stages share memory without data races or memory errors",
  "While a parse runs, no two threads access the same memory without synchronisation when one of them writes, and no thread touches memory that is freed, out of bounds or unmapped. In particular each hand-off buffer has at most one owner at a time and its contents are published to the next owner before that owner can see it.",
  ["schedules","inputs","configurations"],
  "all interleavings of one producer, 1..N reducers and one merger over 1..N buffers, including spurious weak compare-and-swap failures",
  "Existing tests are single-threaded; races and one-off over-reads do not show in a pass/fail unit test.",
  RUN,"WindowBankEntry.state compare-exchange/store, bank number field, semaphore post/wait, tuple pointer published through the bank")
p("C05","Every parse terminates, whatever the timing",
  "With at least one and at most as many reducers as hand-off buffers, every parse runs to completion: once stalls and interruptions stop, all stage threads finish within a bounded number of scheduling steps. Slow callbacks, threads that start late or are descheduled for long, interrupted waits and spuriously failing atomic operations can delay completion but never prevent it.",
  ["schedules","fault_sequences","configurations"],
  "all fair schedules, stall patterns, signal interruptions (EINTR) and weak-CAS failures, 1..N buffers, 1..min(N,buffers) reducers, any number of filled buffers, including traces that end exactly at a buffer boundary",
  "Liveness under adversarial scheduling cannot be sampled by a unit test, and no existing test starts the threads.",
  RUN,"semaphore permits (one per filled bank plus one per bank at exit), the wait for all banks to become free, the final 'done' state")
p("C06","A finished parse releases everything it acquired",
  "When a parse has completed and its objects are destroyed, every thread, memory allocation, mapping, file descriptor, named semaphore and named shared-memory object it acquired is released. Any number of parses can therefore be run one after another in the same process, each giving the same results as the first.",
  ["histories","schedules","configurations"],
  "all sequences of parses in one process (any inputs, worker counts, buffer counts), all interleavings",
  "Leaks accumulate over repeated use; no existing test runs even one parse, none counts descriptors, mappings or shm names.",
  ["src/core/BaseRunner.hpp","src/core/Stage1Runner.hpp","src/core/Stage2RunnerNonRecursive.hpp","src/core/Stage3RunnerNonRecursive.hpp","src/core/Context.hpp"],
  "BaseRunner/StageN destructors, acquire_memory/release_memory, create/open/close_semaphore, tuple new/delete")
p("C07","A killed run never poisons a later run",
  "If a process using the library dies at any instant during a parse, a later run that happens to get the same process id still completes and gives correct results. Nothing left behind by the dead run (named shared memory, semaphore, their contents) can make it fail, hang or report stale constructs.",
  ["crash_points","schedules","histories"],
  "every instant of a run at which the process can be killed (before, between and after each system call and shared-memory access), one or more crashed runs before the successful one",
  "Crash points cannot be expressed in the existing unit tests; process-id reuse is rare in ordinary use and certain over time (and immediate in containers, where the master often always has the same pid).",
  ["src/core/BaseRunner.hpp","src/core/Stage1Runner.hpp"],
  "names derived from the pid; shm_open(O_CREAT), sem_open(O_CREAT|O_EXCL), reset_banks")
p("C08","Failure to obtain a resource is reported, not turned into a crash or hang",
  "If the input file cannot be opened, inspected or mapped, or the shared memory or semaphore cannot be created, opened, sized or mapped, constructing the stage reports an error to the caller. The same holds when a stage's thread cannot be started or memory runs out while a parse is being set up: the call that starts the parse reports it. No construct is reported, nothing crashes or hangs, and everything acquired up to that point is released so that a retry succeeds once the cause is gone.",
  ["fault_sequences","configurations"],
  "every system call (and thread creation and allocation) made while setting a stage or a parse up failing with every plausible errno, alone or in sequence, for each stage, followed by a retry",
  "No test injects a failing system call; ordinary use never sees these paths.",
  ["src/core/BaseRunner.hpp","src/core/Stage1Runner.hpp","src/core/Stage2RunnerNonRecursive.hpp","src/core/Stage3RunnerNonRecursive.hpp"],
  "BaseRunner constructor (open/fstat/mmap), acquire_memory (shm_open/ftruncate/mmap), create_semaphore/open_semaphore (sem_open)")
p("C09","Parses in different processes do not interfere",
  "Any number of processes may parse at the same time, on the same or different inputs, with any start and end order, including one of them dying. Each gives the results it would give alone and none sees, waits for, or removes another's buffers.",
  ["schedules","histories","crash_points","configurations"],
  "2..4 concurrent masters with distinct pids, overlapping arbitrarily, mixed configurations, optional crash of one",
  "No test runs two instances concurrently.",
  ["src/core/BaseRunner.hpp","src/core/Stage1Runner.hpp"],
  "shared-memory and semaphore names contain the master's pid; workers are given the master's pid")
p("C10","Dry and captured runs yield the complete trace in order",
  "A run of the parsing stage with result capture on yields chunks that, concatenated, are exactly the trace the parser produced, in order and with no chunk lost, duplicated, or modified by the later stages. A dry run completes without any reducers, whatever the trace length, and captures the same trace as a full run on the same input.",
  ["schedules","inputs","configurations"],
  "all trace lengths relative to buffer size and count (shorter, exact multiples, longer), dry or full, any reducer count and interleaving",
  "Capture and dry mode are only used by tests that need asmjit; none compares chunks with concurrent reduction or across buffer sizes.",
  ["src/core/Stage1Runner.hpp","src/core/PtrRange.hpp"],
  "release_bank copies the bank before publishing it (capture) or returns it straight to Free (dry)")
p("C11","Rejected input ends cleanly and causes no phantom reductions",
  "When the input is not accepted (malformed, truncated at any byte, or corrupted), the run still terminates on all threads, reports that the input was rejected, touches no memory it does not own, and releases its resources. Every construct reported before the rejection is one the parser had really completed in this input at those offsets; nothing left in a buffer from earlier data is ever reported.",
  ["inputs","schedules","fault_sequences","configurations"],
  "every truncation point and random corruptions of valid inputs, for random grammars, at every position of the rejection relative to buffer boundaries, buffer reuse and reducers' progress",
  "No buildable test covers rejection at all, and stale buffer contents only matter once buffers are reused under load.",
  ["src/core/CodeGenEM64T.cpp","src/core/Stage1Runner.hpp","src/core/Stage2RunnerNonRecursive.hpp","src/core/Stage3RunnerNonRecursive.hpp"],
  "reject path of generated code, landfill of the last bank, get_result")
p("C12","Reductions spread over worker processes give the serial result",
  "In the multi-process (Python) mode, the reductions and listener calls performed by the worker processes together are exactly those of a serial evaluation: each construct's handler runs once, receives its children's objects in order, and the root result is the same for every number of workers, buffer boundary and process interleaving.",
  ["schedules","inputs","configurations"],
  "all parse trees, any handler results including None, 1..N worker processes, all buffer splits, all interleavings of processes and queue deliveries",
  "The Python unittest in benchmarks needs the compiled library and real processes; it checks no result and cannot control process timing.",
  PY+["src/core/Stage2RunnerNonRecursive.hpp","src/core/Stage3RunnerNonRecursive.hpp"],
  "serialised per-bank stacks in shared memory plus per-bank object channels; transfer listener hands object lists from the reducing worker to the merging worker")
p("C13","A Python context can be started, used repeatedly and stopped",
  "Starting workers, parsing any number of inputs in turn (same or different files) and stopping works in every interleaving of the master and worker processes: every parse returns, later parses behave as if they were the first, results never mix between parses, a parse that cannot succeed (missing file, rejected input, failing handler) raises in the caller and leaves the context usable, and stopping ends every worker and leaves no named object behind.",
  ["histories","schedules","configurations"],
  "all sequences start, parse*, stop with 1..N workers and different inputs, all interleavings incl. workers that are slow to pick up or finish a command",
  "The life cycle spans processes; existing Python code has no tests in the stable suite.",
  PY,"command queues, per-worker runner objects, master's stage-1 runner re-created per parse, drain on stop")
p("C14","Results do not depend on where the input ends in memory",
  "The outcome of a parse depends only on the bytes of the input file, not on its length relative to the page size or on what lies after it in memory, and the parser never reads outside the memory mapped for the input. This includes empty files and files whose last token ends exactly at a page boundary.",
  ["inputs","configurations","fault_sequences"],
  "inputs of every length modulo the page size (in particular 0, 1, 15, 16 bytes around a boundary), truncated files, arbitrary neighbouring memory, accepted and rejected inputs",
  "Whether a one-vector over-read faults depends on what the kernel happened to map next; no existing test uses page-sized inputs.",
  ["src/core/BaseRunner.hpp","src/core/CodeGenEM64T.cpp","src/core/CodeGenUtilsEM64T.hpp"],
  "mmap of the input, implicit NUL terminator supplied by page padding, 16-byte vector loads in literal/skip/star matching")
p("C15","The reduction counter counts every reduction once",
  "The optional shared counter given to the reducers rises by exactly one for each construct reduced, never more and never less, whichever worker reduces it, so that after a completed run it equals the number of constructs in the input and at every moment it never exceeds the number of listener calls started.",
  ["schedules","inputs","configurations"],
  "all interleavings of concurrent reducers sharing one counter, with or without a listener result, all trees and splits, repeated runs accumulating into one counter",
  "Lost updates need two reducers incrementing at once; no test uses the counter.",
  RUN,"std::atomic counter incremented after each listener call in stages 2 and 3")
p("C16","Buffer ownership notifications are complete, ordered and truthful",
  "A registered transfer listener is told of every change of buffer ownership, exactly once and in order: each filled buffer, numbered consecutively in input order, is announced when a reducer takes it, when that reducer gives it up (before anyone else can take it), and when the merger takes it, in increasing number order. The reductions made between two notifications on a reducer concern only the buffer announced, so a listener can move per-buffer state between workers using these notifications alone.",
  ["schedules","inputs","configurations"],
  "all interleavings of 1..N reducers and the merger over 1..N buffers and any number of refills",
  "The notifications exist to let foreign runtimes mirror ownership; no test registers one.",
  ["src/core/Stage2RunnerNonRecursive.hpp","src/core/Stage3RunnerNonRecursive.hpp","src/core/Stage2Runner.hpp","src/core/Stage3Runner.hpp"],
  "invoke_transfer_listener calls in acquire_bank/release_bank relative to the bank state transitions")
NA=["pure function of its input: no schedule, clock, I/O, fault or party takes part"]
p("C17","Regular-expression automata accept exactly the language of the pattern",
  "The deterministic automaton built for a terminal accepts exactly the strings its regular expression denotes, before and after minimisation.",
  ["inputs","programs"],"all patterns and all strings","tests compare a handful of automata structurally",
  ["src/core/NFA.hpp","src/core/DFA.hpp"],"Thompson construction, subset construction, minimisation")
p("C18","Lookahead automata always choose the alternative the grammar prescribes",
  "For every decision in a grammar the lookahead automaton selects an alternative that can lead to acceptance whenever one exists within the grammar class supported, honouring declared priorities, and ambiguous grammars are refused at load time.",
  ["programs","inputs"],"all grammars and inputs","tests print a few automata without judging them",
  ["src/core/LookaheadDFA.hpp","src/core/CompositeATN.cpp"],"composite ATN closure, lookahead DFA construction")
p("C19","Character-class algebra is exact",
  "Union, intersection, difference and inversion of character classes agree with the same operations on sets of code units for all classes, and ranges stay normalised.",
  ["inputs"],"all pairs of classes","tests check two examples",
  ["src/core/CharClass.hpp","src/core/CharClass.cpp"],"sorted range vectors")
p("C20","Grammar files load to the machines they describe",
  "Loading a grammar file yields one machine per rule, numbered from one in file order, structurally equivalent to the rule text, and malformed grammar files are refused with an error.",
  ["programs"],"all grammar files","tests load a few good files",
  ["src/core/Grammar.cpp","src/core/ATN.cpp","src/core/Stream.hpp"],"recursive-descent grammar loader")
p("C21","Loading a grammar fails cleanly or loads all of it",
  "When a grammar file or a file it includes is missing, cannot be opened, fails while being read, ends early, holds zero-filled or undecodable parts, has a statement that is not well-formed, uses a rule nobody defines, defines more rules than a parser can tell apart, or includes itself, or when memory runs out while loading, constructing a Context (in C++ or Python) or a parser from it raises an error: a parser for only part of what the files say is never built silently, and nothing crashes, hangs or leaks. A file that ends exactly between two rules loads as the rules it still has, provided they do not use the missing ones. Short reads make no difference, loading works again once the cause is gone, and several threads may load grammars of their own at once.",
  ["fault_sequences","inputs","crash_points","schedules"],
  "all grammars (with and without includes, in the same or other directories, nested) x statements with a mistake at any place x missing/unreadable files x read errors at any call x files cut at any byte x zero-filled or changed bytes at any place x include cycles x failing allocations at any point x any split into reads x loading through Context, Grammar or the optimised/dry variants x 1..3 concurrent loads",
  "Tests load a few intact files from a healthy disk; a half-written file, a failing read or an allocation failure at an arbitrary point never occurs in them.",
  ["src/core/Grammar.cpp","src/core/Grammar.hpp","src/core/Stream.hpp","src/core/Encoding.hpp","src/core/ATN.cpp","src/core/CodeGenEM64T.cpp","src/core/Context.hpp"],"file read into a stream; recursive-descent statements; include handling; reference check before code generation; ownership by containers and RAII")
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
