#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md (property table, findings, planted bugs)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS

HOW = {
    "P01": "Threads read, write, delete and add properties of shared objects through the C API, sized so that tables are resized all the time. Each property's history is checked for linearizability against a register (WGL search); after the run every property must hold a linearizable final value. Also with failing allocations: a failed operation may or may not have happened, nothing else.",
    "P02": "As P01 for elements of an array (read, write, compare-and-swap), with concurrent growth, and push accounting: every pushed value is in the array exactly once, at the index which push returned, in the order of its thread.",
    "P03": "Unrestricted mixes of array, buffer and object operations of several threads (resize, reserve, slice, insert, copy, fill, walk ...) where the outcome is up to the race. Checked: every byte accessed is inside live memory, every value read is a value someone stored, sizes are sane, the containers work afterwards.",
    "P04": "Several threads build graphs of every kind of Kos object from a generating function (each node describes its own content), drop and rewire parts, pass them to each other through shared roots; collections are forced at any time. Every graph is re-verified against the function which made it.",
    "P05": "Objects with finalizers: each finalizer runs exactly once, never while reachable, at the latest when the instance is destroyed. All allocations belong to a ledger which must be empty after KOS_instance_destroy. A program which needs a bounded live set runs forever in a bounded heap.",
    "P06": "A corpus of programs (programs/) run with allocation failures placed at random: the result must be the fault-free output or an out-of-memory exception, after which a second program runs in the same instance; destruction releases everything. Instance creation and thread creation fail at every point. Deep and endless recursion through calls, generators, closures, with and without failures.",
    "P07": "Threads which allocate, suspend and resume their contexts, start and end, take locks, and collect at the same time. Liveness: every thread ends and every collection completes within a step bound after the faults (spurious wake-ups, weak CAS failures, stalled threads); deadlock is reported at once.",
    "P08": "Trees of threads started with arguments, joined by anyone, joined late, never, or by several at once; functions which return, throw, or are generators; more threads than there are slots; thread creation failing. History check: each ran once, with its arguments, and its result was delivered to exactly one waiter, after it ended.",
    "P09": "Scripts which use mutexes, semaphores, queues and stacks of the threads module. Exclusion intervals, permits (never more than the count inside, none lost), each queued value delivered once, histories linearizable against a sequential queue or stack.",
    "P10": "SIGINT at any instruction while programs run, in several threads; each signal must be caught by a catch section or end the program with the exception; deferred code runs; results stay right; the previous handler is put back.",
    "P11": "One generator (plain, with arguments, throwing, endless) called by several threads. Each value of its sequence is delivered once, in real-time order, with the right argument; refused calls are only those which overlap with another call.",
    "P12": "Random file programs against a model of each file and handle (content, position, eof, errors), many handles and threads; one handle shared by writers or readers (what came out is a permutation of whole writes, or a tiling of the file), closed by one thread while others use it, buffers resized while being written or read; pipes; directory trees against a model. Faults: EINTR, short I/O, EIO, ENOSPC, failing open, slow disks.",
    "P13": "Programs spawned by several threads with every combination of arguments, environment, directory and redirection; status or signal of each child, streams, number of programs executed, descriptor ledger (also inside each child), zombies, failing fork, exec and pipe, signals arriving at any time.",
    "P14": "TCP and UDP, IPv4 and IPv6, against simulated remote peers and between Kos threads: blocking and not, all receive and send functions, options, time-outs. Byte streams arrive complete and in order, datagrams whole; time-outs are neither early nor late. Loss, duplication, reordering and delay of datagrams, resets, refused connections, partial sends. Sockets closed by one thread while others use them must never speak through a descriptor which was reused.",
    "P15": "Each program of the corpus, and generated ones, run alone without collections gives the reference; the same with collections forced at random points, and split in threads, must print the same.",
    "P16": "Generated trees of modules (cycles, failing bodies, missing files, packages, native modules) imported by one or several threads and several times, under failing I/O and allocations. Reference model of resolution: which file is taken, each body runs once, values exported, a failed import can be tried again.",
    "P17": "Several instances in one process, in different threads, created and destroyed all the time, running programs of the corpus. Each must give the output and collection statistics which it gives alone; allocations of one instance are gone when it is destroyed; Ctrl-C, child processes, and random seeds are shared only as documented.",
    "P18": "Generated functions of nested try, catch, defer, with, loops, switch, return, break, continue, fallthrough, yield; executed against a small reference interpreter which yields the exact trace of events. With allocation failures and interrupts at any point: the bracket structure (every entered block's deferred code ran once, in order, before the next handler).",
    "P19": "Several threads draw from one generator (integers, ranges, floats); all draws together are linearizable against an independent implementation of the generator with the same seed. Faults: failing entropy source.",
}


def table():
    o = []
    titles = {}
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l)
        titles[d["id"]] = d["title"]
    for p in sorted(PROPS):
        c = PROPS[p]
        o.append("**%s %s.** %s  \nOracle: %s.  \nRuns (quick): %s.\n" % (
            p, titles[p], HOW[p], c["oracle"],
            ", ".join("%s%s %d" % (s["name"], "" if s["variant"] == "std" else "/" + s["variant"], s["quick"]) for s in c["scenarios"])))
    return "\n".join(o)


def findings():
    o = ["| id | property | status | what failed |", "|---|---|---|---|"]
    for f in json.load(open(V + "/known-findings.json")):
        t = f.get("entry", "")
        t = re.sub(r"^fixed: property=P\d+ \S+ ", "", t)
        o.append("| %s | %s | %s | %s |" % (f["id"], f["property"], "fixed " + f["commit"] if f["status"] == "fixed" else f["status"], (t or f.get("what", "")).replace("|", "/")))
    return "\n".join(o)


def seeded():
    o = ["| id | property | needs | caught by |", "|---|---|---|---|"]
    d = V + "/seeded"
    for i in sorted(os.listdir(d)):
        m = json.load(open("%s/%s/meta.json" % (d, i)))
        o.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], CAUGHT.get(i, "see below")))
    return "\n".join(o)


CAUGHT = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
p = V + "/DESIGN.md"
s = open(p).read()
for name, fn in (("table", table), ("findings", findings), ("seeded", seeded)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + fn() + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
