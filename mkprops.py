#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
from props import PROPS
H = os.path.dirname(os.path.abspath(__file__))
ALL = ["schedules", "fault_sequences", "histories"]

def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}

PR = [
P("P01", "Object properties are linearizable while threads share an object",
  "When any number of threads concurrently read, set and delete properties of one shared object, every property behaves as one atomic register: each read returns the value of the latest set or delete in some single order consistent with real time, whatever growth of the object happens meanwhile. No completed set is ever lost, no deleted value comes back, and no property is seen under a wrong name. An operation that fails with an exception (out of memory, say) has either taken full effect or none.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of concurrent get/set/delete on few or many keys, every point at which the property table is being resized, every allocation failure and garbage collection in between",
  "core/tests/kos_object_*test.c run a few fixed loops on real threads whose interleaving nobody controls; the windows during resize/salvage are a few instructions wide.",
  ["core/kos_object.c", "inc/kos_object.h"],
  [("lock-free property table with CLOSED/TOMBSTONE markers", "core/kos_object.c: KOS_set_property, KOS_get_property, KOS_delete_property"), ("cooperative copy of the table", "core/kos_object.c: resize_prop_table, copy_table, salvage_item")],
  ["return values and exceptions of property operations"]),
P("P02", "Array elements are linearizable and pushes are exactly-once",
  "When any number of threads concurrently read, write, compare-and-swap and push elements of one shared array which is growing, every element behaves as one atomic register and no write is lost by a storage reallocation. Every successful push adds exactly one element at an index no other push got, and the final size is the initial size plus the number of successful pushes.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of read/write/cas/push/reserve, every capacity boundary, every allocation failure and garbage collection in between",
  "core/tests/kos_array_test.c and kos_threads_test.c sample a handful of real-thread runs; a lost write needs a preemption inside the copy of one slot.",
  ["core/kos_array.c", "inc/kos_array.h"],
  [("lock-free storage copy with CLOSED slots", "core/kos_array.c: copy_buf, resize_storage, KOS_array_push, KOS_array_cas_convert_idx")], ["return values of array operations", "array size"]),
P("P03", "Any concurrent mix of container operations is memory- and type-safe",
  "Whatever threads do concurrently to shared arrays, buffers and objects (resize, reserve, pop, insert, slice, fill, copy, iterate, enumerate), no operation touches memory outside the container, touches released memory, crashes, hangs, or yields a value nobody put there. Every operation either succeeds or raises a proper exception, and afterwards the container is still usable.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of every container operation with every other, under allocation failure and moving garbage collection",
  "Tests exercise each operation single-threaded; the pairwise races (e.g. insert against shrink) are not exercised at all and need particular preemption points.",
  ["core/kos_array.c", "core/kos_buffer.c", "core/kos_object.c", "core/kos_utils.c"],
  [("size/storage atomics and CAS replacement of storage", "core/kos_array.c: KOS_array_resize, KOS_array_insert, KOS_array_pop; core/kos_buffer.c: KOS_buffer_resize, KOS_buffer_reserve")], ["shadow memory of the simulator", "return values"]),
P("P04", "Garbage collection never changes or loses a reachable value",
  "A value reachable from a running program (variables, stacks, handles, containers, closures, generators, pending exceptions, threads) keeps its identity, type and contents across every garbage collection, no matter when collections happen, how many threads are running, and which allocations fail. Collected memory is never observable through a live reference.",
  ["schedules", "histories", "fault_sequences", "configurations"], "every placement of collections between and inside operations of several threads, every heap limit, every allocation failure in the collector",
  "The tests run with one GC threshold and mostly one thread; a stale pointer held across one allocation shows up only if a collection lands exactly there.",
  ["core/kos_heap.c", "core/kos_heap.h", "core/kos_vm.c", "inc/kos_memory.h"],
  [("stop-the-world mark and evacuate", "core/kos_heap.c: KOS_collect_garbage, mark_roots, evacuate, update_after_evacuation"), ("tracked handles", "inc/kos_memory.h: KOS_LOCAL")], ["object graph compared with a shadow model"]),
P("P05", "Resources are released exactly once, and only when unreachable",
  "A native resource attached to a program object (its finalizer) is released exactly once: never while the object is reachable, and at the latest when the instance is destroyed. Destroying an instance returns all memory, threads and synchronisation objects it ever took, and unreachable memory is reclaimed so that a program with bounded live data runs for ever in a bounded heap.",
  ["schedules", "histories", "fault_sequences"], "every history of object creation, dropping and collection by several threads, every allocation failure at any point including instance initialisation",
  "Tests check a few finalizers on one thread; leaks on error paths need a failing allocation at a specific call.",
  ["core/kos_heap.c", "core/kos_instance.c", "core/kos_object.c"],
  [("finalization during sweep and at destroy", "core/kos_heap.c: finalize_object, kos_heap_destroy"), ("KOS_instance_destroy", "core/kos_instance.c")], ["finalizer counters", "allocator ledger of the simulator"]),
P("P06", "Failed allocations surface as exceptions and leave the VM usable",
  "If memory runs out at any point (system allocation failure or heap limit), the operation in progress ends with an exception (or an error code where no program runs yet) and never with a crash, a hang, a wrong result or a corrupted value. Once memory is available again the same instance runs programs correctly, and nothing the failed operation took is leaked.",
  ["fault_sequences", "crash_points", "programs"], "every allocation made while compiling, running and collecting, failed singly or in bursts, at any heap limit",
  "One fuzz-like test (kos_random_fail style builds) exists behind a compile option; the regular test-suite never fails an allocation.",
  ["core/kos_heap.c", "core/kos_malloc.c", "core/kos_vm.c", "core/kos_compiler.c", "core/kos_instance.c"],
  [("null checks and KOS_raise_exception paths", "all of core and modules")], ["result of the operation, pending exception, allocator ledger"]),
P("P07", "Stopping the world always terminates and nobody deadlocks",
  "A garbage collection requested by any thread completes in a bounded number of steps provided every other thread keeps being scheduled or is blocked in a call the runtime knows can block, and every stopped thread resumes afterwards. No combination of concurrent collections, thread starts, thread exits and blocking calls deadlocks or livelocks.",
  ["schedules", "histories"], "every interleaving of several collectors, suspending, resuming, starting and ending threads, with spurious wake-ups and stalls",
  "Liveness is a statement about all schedules; tests with real threads only show that the usual schedule ends.",
  ["core/kos_heap.c", "core/kos_instance.c", "core/kos_system.c"],
  [("engagement protocol", "core/kos_heap.c: stop_the_world, KOS_suspend_context, KOS_resume_context, kos_gc_step / help_gc")], ["deadlock and step-bound detection by the simulator"]),
P("P08", "Threads run once and hand over their result exactly",
  "A started thread runs its function exactly once with the given arguments, and exactly one wait for it returns exactly the value it returned or raises exactly the exception it ended with, and only after it ended, while any further wait is told that it was already joined, however start, end and waits interleave. A thread cannot wait for itself, the number of threads is limited without harming running ones, and an instance is never destroyed before all its threads ended.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of start, end, several waiters and collections; failing thread creation and allocation; up to the thread limit",
  "Tests start and join threads in the natural order; races between the end of a thread, several waiters and collection of the thread object are not controllable.",
  ["core/kos_threads.c", "core/kos_instance.c", "modules/kos_mod_threads.c"],
  [("thread object life cycle", "core/kos_threads.c: kos_thread_create, kos_thread_join, thread_func_proc"), ("thread accounting", "core/kos_instance.c: KOS_instance_register_thread, KOS_instance_destroy")], ["thread.wait() results"]),
P("P09", "Locks exclude, semaphores count, queues deliver exactly once",
  "At any time at most one thread holds a mutex, and only its holder can release it; a semaphore never lets more acquisitions through than its initial value plus releases. Every item pushed to a shared queue or stack is delivered to exactly one consumer, queue items of one producer in their order, and no wake-up is lost: a waiting thread proceeds once what it waits for is available.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of any number of producers, consumers and lock users, with spurious wake-ups, collections and failing allocations",
  "Tests check outcomes of single runs on real threads; lost wake-ups and broken exclusion need specific interleavings.",
  ["modules/threads.kos", "modules/kos_mod_threads.c", "core/kos_threads.c"],
  [("native mutex and semaphore", "modules/kos_mod_threads.c"), ("queue and stack", "modules/threads.kos")], ["history of lock/semaphore/queue operations"]),
P("P10", "An interrupt becomes a catchable exception and never wedges the VM",
  "An interrupt (Ctrl-C) that arrives at any moment while a program runs is delivered to the program as a catchable exception within a bounded number of executed instructions, and a thread which catches it carries on normally; handlers and deferred code still run. It never deadlocks, corrupts state, or is lost while a handler is installed.",
  ["schedules", "crash_points", "fault_sequences"], "every instant of arrival, on every thread, including inside collections, locks and system calls",
  "Signal arrival is asynchronous; tests raise it at one or two places.",
  ["core/kos_instance.c", "core/kos_vm.c", "core/kos_heap.c", "interpreter/kos.c"],
  [("global event and handler", "core/kos_instance.c: KOS_hook_ctrl_c, KOS_raise_ctrl_c; core/kos_heap.c / kos_vm.c event dispatch")], ["exceptions seen by the program"]),
P("P11", "A generator shared between threads yields each value exactly once",
  "When several threads use the same generator (or other iterator), each call either gets the next value of the sequence or a clean exception refusing the call because the generator is running elsewhere; no value is produced twice or skipped and the generator's state is never corrupted. After contention the generator continues correctly.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of several callers of one generator, with exceptions, early termination and collections",
  "Tests iterate generators from one thread only.",
  ["core/kos_vm.c"], [("generator state machine", "core/kos_vm.c: prepare_call, finish_call")], ["values and exceptions returned by the generator"]),
P("P12", "File I/O is faithful: bytes written are the bytes read, errors are raised",
  "Through the file module, what is written to a file is exactly what is stored and read back, at the right position, for any sequence of operations. When the operating system fails, interrupts or cuts short an operation, the program either gets an exception or the data is complete: data is never silently lost, duplicated or altered, and no file descriptor leaks.",
  ["fault_sequences", "histories", "inputs"], "every sequence of open/read/write/seek/resize/close with short transfers, EINTR, EIO, ENOSPC and failing allocations at any call",
  "Tests run on a healthy disk; the error paths are never taken.",
  ["modules/kos_mod_io.c", "modules/io.kos", "modules/kos_mod_fs.c"],
  [("file object methods", "modules/kos_mod_io.c: read_some, write, set_file_pos, kos_io_close")], ["simulated disk contents against a model file"]),
P("P13", "Child processes: right status, right streams, no leaked fds or zombies",
  "Spawning a process runs exactly the requested program with the requested arguments, environment, directory and streams, or raises an exception and leaves nothing behind. Waiting returns exactly that process's exit status or signal, to the right waiter, and every ended child is reaped; no descriptor or process leaks even when system calls fail or are interrupted.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of child exits, SIGCHLD, several spawning and waiting threads; failing fork/exec/pipe/dup/chdir, EINTR",
  "Tests spawn one child at a time and nothing fails.",
  ["modules/kos_mod_os.c"], [("spawn with status pipe", "modules/kos_mod_os.c: spawn, release_pid, destroy_zombies, wait_for_child")], ["simulated process table and fd table"]),
P("P14", "Sockets deliver the byte stream or datagram intact, or raise",
  "Over a connected stream socket the receiver sees exactly the bytes sent, in order, up to where the connection ended; datagrams arrive whole or not at all. Partial transfers, interruptions, resets, refused connections and timeouts end in the documented result or an exception within the stated time, never in a hang, crash, wrong data or descriptor leak.",
  ["schedules", "fault_sequences", "histories"], "every segmentation, delay, reset, EINTR and close from another thread",
  "Tests use the healthy loopback with small messages.",
  ["modules/kos_mod_net.c"], [("blocking socket calls", "modules/kos_mod_net.c: kos_send, kos_recv, kos_wait, kos_accept, kos_connect")], ["byte streams of the simulated network"]),
P("P15", "A program's result does not depend on collections or harmless scheduling",
  "A deterministic program computes the same result and the same output whenever collections happen, however memory is laid out, and however its threads are scheduled as long as they do not share mutable data. Only an exhausted resource may end it differently, and then with an exception.",
  ["programs", "schedules", "configurations"], "every program, every placement of collections and thread switches",
  "Tests run each program once under one collection timing.",
  ["core/kos_vm.c", "core/kos_heap.c", "core/kos_compiler.c", "modules/base.kos", "modules/kos_mod_base.c"],
  [("precise rooting in VM and built-ins", "core/kos_vm.c, modules/kos_mod_base*.c: KOS_LOCAL discipline")], ["output and result of generated programs against an undisturbed run"]),
P("P16", "Importing a module gives the whole module once or a clean exception",
  "Importing a module yields the same fully initialised module to every importer, its top-level code runs exactly once, and circular imports are reported. If reading, compiling or running it fails for any reason, the importer gets an exception naming the problem, and a later import, once the cause is gone, succeeds.",
  ["fault_sequences", "histories", "schedules"], "every I/O error, truncated read and allocation failure while a module tree is loaded",
  "Tests load modules from a healthy disk.",
  ["core/kos_module.c", "core/kos_system.c"], [("import and load", "core/kos_module.c: kos_module_import, load_module, KOS_load_module")], ["import results and module side effects"]),
P("P17", "Independent instances in one process never affect each other",
  "Two interpreter instances living in one process on different threads do not see or disturb each other: each program's result, collections, failures and destruction are the same as if it were alone.",
  ["schedules", "fault_sequences", "programs"], "every interleaving of two instances being created, running, collecting, failing and being destroyed",
  "No test runs two instances at the same time.",
  ["core/kos_instance.c", "core/kos_heap.c", "core/kos_system.c", "modules/kos_mod_os.c"], [("per-instance state", "inc/kos_instance.h"), ("process-wide state", "static variables of core and modules")], ["result of each instance"]),
P("P18", "Deferred code runs once on every way out, and exceptions find their handler",
  "Code in defer, with and try-finally constructs that was entered runs exactly once when its scope is left, whether normally, by return, by an exception thrown by the program, by running out of memory or by an interrupt, and in the right (reverse) order. An exception in flight is neither lost nor replaced by cleanup that succeeds, and it reaches the innermost handler which is active where it was raised, however that place was reached (after break, continue, fallthrough or return out of other handlers, say).",
  ["programs", "fault_sequences", "crash_points"], "every nesting, every exit path and every instant at which an asynchronous exception arrives",
  "Tests leave scopes by ordinary control flow only.",
  ["core/kos_compiler.c", "core/kos_vm.c"], [("catch offsets and finally code", "core/kos_compiler.c, core/kos_vm.c: exception unwinding")], ["order of enter/leave events logged by the program"]),
P("P19", "A shared random generator is safe and seeded sequences are reproducible",
  "A seeded random generator produces the same sequence whatever else the process does; when threads share one generator the sequence is dealt out among them without a value being produced twice or lost, and every value respects its requested range.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of several users of one generator",
  "Tests use each generator from one thread.",
  ["modules/kos_mod_random.c", "modules/random.kos"], [("mutex around the generator", "modules/kos_mod_random.c")], ["multiset of values drawn"]),
P("P20", "Compiled programs mean what their source says",
  "For every source program the compiler accepts, executing the compiled code has the meaning the language documentation gives to the source, with optimizations on or off, and every malformed program is rejected with a located error rather than a crash.",
  ["programs", "inputs"], "every source text",
  "Tests sample a few thousand fixed programs.",
  ["core/kos_parser.c", "core/kos_compiler.c", "core/kos_ast_optimizer.c", "core/kos_lexer.c"], [("compiler pipeline", "core/kos_compiler.c: kos_compiler_process_module")], ["result of running the program"]),
P("P21", "Number and string conversions are exact",
  "Converting numbers to text and back gives the same number, text is always valid UTF-8 in and out, and string operations agree with their code-point definition for every input.",
  ["inputs"], "every number and every string",
  "Tests sample fixed values.",
  ["core/kos_utils.c", "core/kos_string.c", "core/kos_utf8.c"], [("conversion routines", "core/kos_utils.c: kos_parse_double, kos_print_float; core/kos_string.c")], ["converted values"]),
P("P22", "Regular expressions and JSON agree with their definitions",
  "For every pattern and subject the regular-expression module finds the match the pattern defines, and JSON text produced from a value parses back to an equal value.",
  ["inputs"], "every pattern, subject and JSON value",
  "Tests sample fixed patterns and values.",
  ["modules/kos_mod_re.c", "modules/re.kos", "modules/json.kos"], [("matchers", "modules/kos_mod_re.c"), ("json", "modules/json.kos")], ["match results"]),
]
PURE = "a pure function of its input: no schedule, clock, I/O, fault or party appears in it, so deterministic simulation has nothing to decide (the asynchronous side - collections, failures, interrupts during execution - is in P06, P15 and P18)"
NA = {"P20": PURE, "P21": PURE, "P22": PURE}

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PR: f.write(json.dumps(p) + "\n")

man = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
       "notes": "No hooks were added to /repo: every seam is at the libc/pthread boundary and in the compiler's memory-access instrumentation. See DESIGN.md."}
for p in PR:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        man["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, " + c.get("oracle", "checked against a reference model"),
            "level": "exploration",
            "level_note": c.get("note", "A clean run is evidence over the sampled schedules and faults, not proof. Real core and module code runs; threads, locks, memory, clock and the operating system are simulated; memory is sequentially consistent.")})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed: its check is still being built")})
with open(os.path.join(H, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")
for p in PR:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
