"""What each check runs: (program, variant, scenarios, safety deadline in seconds)."""

def _p(q, t, prog="props", asan_q=0, asan_t=0, mem_q=0, mem_t=0):
    quick = [(prog, "plain", q, 300)]
    thorough = [(prog, "plain", t, 3600)]
    if asan_q:
        quick.append((prog, "asan", asan_q, 200))
    if asan_t:
        thorough.append((prog, "asan", asan_t, 1800))
    # the build that also preempts at accesses to memory threads share
    if mem_q:
        quick.append((prog, "mem", mem_q, 300))
    if mem_t:
        thorough.append((prog, "mem", mem_t, 3600))
    return {"quick": quick, "thorough": thorough}


PLAN = {
    "C01": _p(7000, 150000, asan_t=20000),
    "C02": _p(7000, 150000, asan_t=20000),
    "C03": _p(7000, 150000, asan_t=20000),
    "C04": _p(8000, 150000, asan_t=10000),
    "C05": _p(7000, 150000, asan_t=20000),
    "C06": _p(7000, 150000, asan_t=10000),
    "C07": _p(400, 6000, asan_t=400, mem_q=200, mem_t=4000),
    "C08": _p(20000, 400000, prog="api", asan_t=40000),
    "C09": _p(20000, 400000, prog="api", asan_t=40000),
    "C10": _p(7000, 150000, asan_t=10000),
    "C11": _p(7000, 150000, asan_t=10000),
    "C12": _p(3000, 60000, asan_q=3000, asan_t=60000),
    "C13": _p(7000, 150000, asan_t=20000),
    "C14": _p(4000, 80000, asan_t=4000),
    "C15": _p(6000, 120000, prog="api", asan_t=20000, mem_q=1500, mem_t=30000),
    "C16": _p(2500, 50000, asan_t=4000),
    "C17": _p(30000, 600000, prog="objs", asan_q=4000, asan_t=80000, mem_q=10000, mem_t=200000),
    "C18": _p(15000, 400000, prog="objs", asan_q=2000, asan_t=60000, mem_q=5000, mem_t=100000),
    "C24": _p(7000, 150000, asan_t=10000),
    "C25": _p(8000, 150000, asan_t=10000),
}

_SYS = ("One evaluation is one scenario derived from VERIF_SEED and its index: a generated molecular system (atoms, basis "
        "sizes, spins, orbital choices, file layout, option style), operating-system behaviour and faults, executed by the real "
        "calc_J under the simulator and judged by the reference model. ")
RULES = {
    "C01": _SYS + "Non-trivial: every scenario (a full report or a refusal is compared with the model's); counted once per distinct event trace.",
    "C02": _SYS + "Non-trivial: at least one file was cut at a byte or lacks a table; counted once per distinct event trace.",
    "C03": _SYS + "Non-trivial: an injected open/stat/read/seek fault or file system change actually fired; counted once per distinct event trace.",
    "C04": _SYS + "Non-trivial: a fault on standard output or standard error actually fired; counted once per distinct event trace.",
    "C05": _SYS + "Non-trivial: an allocation actually failed; counted once per distinct event trace.",
    "C06": _SYS + "Non-trivial: a log was appended to while the run was reading, or holds several geometry steps; counted once per distinct event trace.",
    "C07": _SYS + "Each scenario runs 2-3 calculations alone and then together under a seeded preemptive scheduler. Non-trivial: more task switches than tasks; counted once per distinct event trace.",
    "C08": "One evaluation is one generated history of file changes, faults and reads on long-lived reader objects. Non-trivial: at least two reads were judged; counted once per distinct event trace.",
    "C09": "One evaluation is one generated history of file system changes and validations of one file argument. Non-trivial: at least two validations were judged; counted once per distinct event trace.",
    "C10": _SYS + "Options are left out, decoys and files that appear or vanish are added. Non-trivial: every scenario; counted once per distinct event trace.",
    "C11": _SYS + "Workloads and faults of the other properties, judged by what happened to the file system. Non-trivial: those whose own faults were exercised; counted once per distinct event trace.",
    "C12": _SYS + "Non-trivial: at least one corruption was applied; counted once per distinct event trace.",
    "C13": _SYS + "Files of different calculations are mixed or tables changed. Non-trivial: every scenario; counted once per distinct event trace.",
    "C14": _SYS + "Each scenario runs several times with different memory contents, chunking, clock and environment and the deliveries are compared. Non-trivial: every scenario; counted once per distinct event trace.",
    "C15": "One evaluation is one generated history of rearrangements and couplings asked of calculation objects that share one set of matrices, with allocation failures and, in part, on two preemptively scheduled threads. Non-trivial: at least two couplings were judged; counted once per distinct event trace.",
    "C16": _SYS + "Each scenario runs 2-4 calculations one after another in one process while files are exchanged, cut and removed in between, and each of them alone. Non-trivial: at least one calculation that was not the first was compared; counted once per distinct event trace.",
    "C17": "One evaluation is one generated history of calls on four matrices per thread (and two shared ones that are only read), with allocation failures and, in part, on two preemptively scheduled threads. Non-trivial: at least three calls were judged; counted once per distinct event trace.",
    "C18": "One evaluation is one generated history of declarations, rules, defaults, command lines and questions put to one option parser per thread (and two property objects), with allocation failures, file creations and removals and, in part, on two preemptively scheduled threads. Non-trivial: at least three calls were judged; counted once per distinct event trace.",
    "C24": "One evaluation is one generated command line of requests for help, citation and version (alone or among the options of a calculation), run without and, in most scenarios, again with failing or short writes or a failing allocation. Non-trivial: the text of an unfaulted run was judged, or a fault actually fired; counted once per distinct event trace.",
}
RULES["C25"] = (_SYS + "Options are given that the calculation cannot be asked with (unknown, without value, with a value that is not "
                "allowed), or given twice, or ask for the outermost orbitals. Non-trivial: every scenario; counted once per distinct event trace.")
REAL = ["all of src/libcatnip", "src/tools/main.cpp (its main renamed by objcopy)", "libstdc++ iostreams, filebuf, containers", "libc string/number/locale/math functions"]
STUB = ["file system behind fopen/open/stat/access/read/lseek/close/opendir", "standard output and standard error devices", "heap contents and allocation failures (operator new, malloc)",
        "clock, sleep, process id, environment, random sources", "thread scheduler (a baton between real threads, seeded)", "process exit/abort"]
ASSUME = ["the compiler and libstdc++ of this sandbox", "the generator's file layouts stand for what Gaussian writes",
          "seeded sampling: a clean batch is evidence, not proof"]
