"""What each check runs: simulator group, budgets, probes, component list."""

REAL_CORE = ("real: kep3 linalg, lambert_problem, leg/sims_flanagan, leg/sf_checks, core_astro/* that builds here, their boost "
             "serialisation; real libstdc++, boost.serialization, fmt, xtensor(-blas), OpenBLAS")
SIM_CORE = ("simulated: thread scheduler, mutexes / once / local-static guards, heap, clock, disk; stubbed: nothing of kep3")

ASSUMPTIONS = [
    "Interleavings are sequentially consistent; weaker orders are covered by the happens-before race detector, which judges every "
    "instrumented access of kep3 and of the headers compiled into it, not accesses inside shared libraries.",
    "Preemption happens at instrumented accesses, synchronisation calls, allocations, simulated system calls and operation boundaries.",
    "Seeded sampling: a clean batch is evidence, not proof.",
]
REAL_EPOCH = "real: kep3 epoch and its boost serialisation; real libstdc++, boost.serialization, fmt, glibc time zone code (UTC)"

REAL_TA = ("real: kep3 ta/stark, ta/cr3bp, stark_problem, leg/sims_flanagan_hf, epoch and everything of group core; real libstdc++, "
           "boost.serialization, fmt, xtensor(-blas), OpenBLAS")
STUB_TA = ("stubbed: heyoka (not installed here), by a stand-in Taylor-integrator class with its interface, deterministic numerics, value semantics, "
           "serialisation and failure modes (exceptions, bad_alloc, non-finite states)")

REAL_PL = ("real: kep3 planet, udpla/keplerian, udpla/jpl_lp, udpla/vsop2013, core_astro/flyby, epoch and everything of group core; user-defined "
           "planet classes of the harness; real libstdc++, boost.serialization, fmt")
STUB_PL = ("stubbed: tanuki (part of heyoka, not installed here), by a wrapper with its interface; heyoka expressions, llvm_state and the VSOP2013 "
           "series, by made-up smooth functions per body and threshold")

CHECKS = {
    "C01": dict(group="core", components=[REAL_CORE, SIM_CORE], probes=["overlapping_ops", "preemption", "failed_allocation", "static_inits"]),
    "C02": dict(group="core", components=[REAL_CORE, SIM_CORE], probes=["overlapping_ops", "preemption", "failed_allocation", "queries"]),
    "C03": dict(group="core", components=[REAL_CORE, SIM_CORE], probes=["overlapping_ops", "preemption", "failed_allocation", "queries"]),
    "C04": dict(group="core", components=[REAL_CORE, SIM_CORE], probes=["rejected_calls", "bad_alloc_seen", "setters", "preemption"]),
    "C05": dict(group="core", components=[REAL_CORE, SIM_CORE], probes=["crashes", "torn_files", "enospc", "eio", "short_io", "syncs", "loads_ok"]),
    "C06": dict(group="core", components=[REAL_CORE, SIM_CORE], probes=["torn_files", "eio", "short_io", "loads_failed", "loads_ok", "bad_alloc_seen"]),
    "C07": dict(group="core", components=[REAL_CORE, SIM_CORE], probes=["bad_alloc_seen", "leak_compares"]),
    "C08": dict(group="epoch", components=[REAL_EPOCH, SIM_CORE], probes=["overlapping_ops", "preemption", "rejected_calls", "clock_reads", "clock_jump", "clock_backward_steps"]),
    "C09": dict(group="epoch", components=[REAL_EPOCH, SIM_CORE], probes=["crashes", "torn_files", "enospc", "eio", "short_io", "loads_ok", "loads_failed"]),
    "C10": dict(group="ta", components=[REAL_TA, SIM_CORE, STUB_TA], probes=["preemption", "failed_allocation", "rejected_calls", "lock_contended", "cache_hits"]),
    "C11": dict(group="ta", components=[REAL_TA, SIM_CORE, STUB_TA], probes=["preemption", "failed_allocation", "setters", "rejected_calls"]),
    "C12": dict(group="ta", components=[REAL_TA, SIM_CORE, STUB_TA], probes=["preemption", "failed_allocation", "setters", "rejected_calls", "bad_alloc_seen"]),
    "C13": dict(group="ta", components=[REAL_TA, SIM_CORE, STUB_TA], probes=["crashes", "torn_files", "enospc", "eio", "short_io", "loads_ok", "loads_failed"]),
    "C14": dict(group="ta", components=[REAL_TA, SIM_CORE, STUB_TA], probes=["bad_alloc_seen", "leak_compares"]),
    "C15": dict(group="planet", components=[REAL_PL, SIM_CORE, STUB_PL], probes=["preemption", "failed_allocation", "udp_throws", "rejected_calls", "setters"]),
    "C16": dict(group="planet", components=[REAL_PL, SIM_CORE, STUB_PL], probes=["crashes", "torn_files", "enospc", "eio", "short_io", "loads_ok", "loads_failed"]),
    "C17": dict(group="planet", components=[REAL_PL, SIM_CORE, STUB_PL], probes=["overlapping_ops", "preemption", "failed_allocation", "rejected_calls", "lock_contended"]),
    "C18": dict(group="planet", components=[REAL_PL, SIM_CORE, STUB_PL], probes=["bad_alloc_seen", "leak_compares"]),
}
