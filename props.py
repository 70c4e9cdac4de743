"""Which scenarios decide which property, and how many simulated runs each gets."""


def S(name, quick, thorough=None, variant="std", **kw):
    d = dict(name=name, quick=quick, thorough=thorough or quick * 30, variant=variant)
    d.update(kw)
    return d


PROPS = {
    "P01": dict(oracle="per-property linearizability against a register model",
                scenarios=[S("object_lin", 360000), S("object_lin_oom", 120000)]),
    "P02": dict(oracle="per-element linearizability and push accounting against a model",
                scenarios=[S("array_lin", 400000), S("array_lin_oom", 150000), S("array_prefix", 250000)]),
    "P03": dict(oracle="shadow-memory, type and usability invariants",
                scenarios=[S("array_mix", 120000), S("array_insert_mix", 160000), S("buffer_mix", 160000), S("object_mix", 120000),
                           S("array_insert_mix", 8000, variant="mad"), S("buffer_mix", 8000, variant="mad"), S("object_mix", 8000, variant="mad")]),
    "P04": dict(oracle="self-describing value graphs re-verified byte by byte against the function which generated them",
                scenarios=[S("gc_graph", 72000), S("gc_limit", 48000), S("gc_oom", 36000), S("gc_graph", 3600, variant="mad")]),
    "P05": dict(oracle="finalizer ledger, allocation ledger, bounded-heap progress",
                scenarios=[S("gc_life", 120000), S("gc_graph", 36000), S("gc_limit", 18000), S("gc_bounded", 4800), S("gc_bounded_oom", 4800)]),
    "P07": dict(oracle="bounded progress: every thread and every collection completes within the step bound",
                scenarios=[S("gc_live", 480000), S("gc_graph", 32000), S("gc_live", 9600, variant="mad")]),
    "P08": dict(oracle="thread life-cycle history: ran once, right arguments, right result to one waiter, not before the end, not beyond the instance",
                scenarios=[S("thr_tree", 48000), S("thr_wide", 3200), S("thr_oom", 48000)]),
    "P09": dict(oracle="exclusion intervals, protected counters, permit accounting, exactly-once delivery, linearizability of queue and stack against a sequential model",
                scenarios=[S("sync_mutex", 30000), S("sync_sem", 50000), S("sync_queue", 30000), S("sync_stack", 20000)]),
    "P06": dict(oracle="reference output of the same program without faults, exception text, allocation, descriptor and synchronisation-object ledgers, a second program in the same instance",
                scenarios=[S("prog_oom", 36000), S("prog_limit", 12000), S("prog_init", 5000), S("deep", 6000), S("deep_oom", 14000), S("deep_thr", 10000), S("thr_oom", 8000)]),
    "P10": dict(oracle="interrupt ledger: every signal becomes a catchable exception, deferred code runs, results stay right, the previous handler comes back",
                scenarios=[S("ctrlc", 20000), S("ctrlc_oom", 14000)]),
    "P11": dict(oracle="each value of the known sequence delivered once and in real-time order, arguments paired with values, refused calls only while another call is in progress",
                scenarios=[S("gen_share", 48000), S("gen_oom", 32000)]),
    "P12": dict(oracle="model of every file, handle and directory; conservation and order of what shared handles and pipes carry; descriptor, FILE and DIR ledgers",
                scenarios=[S("files", 12000), S("files_faults", 10000), S("files_oom", 8000), S("file_share", 10000), S("file_share_faults", 6000), S("file_share_oom", 5000),
                           S("file_shread", 8000), S("file_shread_oom", 4000), S("pipe", 8000), S("pipe_faults", 8000), S("pipe_oom", 5000), S("fs", 5000), S("fs_faults", 5000), S("fs_oom", 4000),
                           S("file_close", 10000), S("file_close_faults", 4000), S("file_close_oom", 4000), S("file_bufs", 3000), S("file_bufs_oom", 2000)]),
    "P13": dict(oracle="what each program must report (status, signal, output, environment), number of programs executed, ledgers of descriptors, FILE objects and zombies",
                scenarios=[S("proc", 31200), S("proc_faults", 26000), S("proc_oom", 20800)]),
    "P14": dict(oracle="contents of every connection and datagram at both ends, exactly the sequence sent; what remote peers saw; ledgers of sockets and descriptors",
                scenarios=[S("net", 24000), S("net_faults", 20000), S("net_oom", 16000), S("sock_close", 8000), S("sock_close_faults", 4000), S("sock_close_oom", 4000)]),
    "P15": dict(oracle="the same program run alone and undisturbed (result, output) for collections; completion without error for parts run in threads",
                scenarios=[S("prog_gc", 40000), S("prog_par", 16000), S("prog_gc", 600, variant="mad"), S("prog_par", 160, variant="mad")]),
    "P16": dict(oracle="reference model of module resolution (search order, cycles, failures, retries) over a generated tree of modules, with the sequence of module bodies run and the values they export; memory and native library accounting after destruction",
                scenarios=[S("mods", 24000), S("mods_faults", 21000), S("mods_oom", 21000), S("mods_par", 15000), S("mods_par_oom", 12000), S("mods_fresh", 2250)]),
    "P17": dict(oracle="the same programs run in an instance which is alone in the process (result, output, statistics of collections); memory accounting of each instance when it is destroyed, and of everything at the end",
                scenarios=[S("iso", 4000), S("iso_oom", 4000), S("iso_int", 4000)]),
    "P18": dict(oracle="event trace of a reference interpreter for the same program; with faults, the bracket structure of entered and deferred code and the identity of caught exceptions",
                scenarios=[S("defer", 16000), S("defer_oom", 10000), S("defer_int", 10000)]),
    "P19": dict(oracle="linearizability of all draws against an independent model of the generator",
                scenarios=[S("rnd_share", 24000), S("rnd_faults", 16000)]),
}
