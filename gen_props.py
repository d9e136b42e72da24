#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so they stay in step."""
import json
import os

V = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: seeded search over %s, checked against %s"
TRUST = (" Assumes: the simulator's runtime (threads, locks, heap, disk) is faithful; interleavings are sequentially consistent, with a "
         "happens-before race detector for the rest; sampling, not proof.")

P = []


def claim(id, title, statement, over, qtext, why, files, mech, search, oracle, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=mech, hook_needed=None),
                  _check=(TECH % (search, oracle), note + TRUST)))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[], mechanism=mech, hook_needed=None), _na=reason))


def m(name, where):
    return dict(name=name, where=where)


CORE = ["src/core_astro/ic2par2ic.cpp", "src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp", "src/core_astro/stm.cpp",
        "src/core_astro/propagate_lagrangian.cpp", "src/linalg.cpp", "include/kep3/core_astro/convert_anomalies.hpp",
        "include/kep3/core_astro/convert_julian_dates.hpp", "include/kep3/core_astro/special_functions.hpp", "include/kep3/core_astro/kepler_equations.hpp"]
claim("C01", "Computing routines are stateless: calls never influence one another",
      "Every stateless routine of the library (propagation with and without its state transition matrix, element and anomaly conversions, "
      "date conversions, small linear algebra, and building and evaluating Lambert problems and legs as throw-away values) returns, for given "
      "arguments, exactly the result it returns when it is the only call of a fresh process. This holds whatever calls, including calls that were rejected "
      "or ran out of memory, came before in the same process or run at the same time in other threads, and no such calls conflict on "
      "memory.",
      ["schedules", "histories", "inputs", "fault_sequences"],
      "every interleaving of up to many threads, every preceding sequence of calls, every argument, every failed allocation in an earlier or concurrent call",
      "Tests call each routine alone in one thread, a few inputs at a time, and never compare a call with the same call in another "
      "process: state left behind (a static buffer, a memo with a partial key, a warm start) is invisible to them.",
      CORE + ["src/lambert_problem.cpp", "src/leg/sims_flanagan.cpp", "src/leg/sf_checks.cpp"],
      [m("only automatic variables in every routine", "src/core_astro, src/linalg.cpp, src/lambert_problem.cpp"),
       m("constants initialised before use", "include/kep3/core_astro/constants.hpp")],
      "thread interleavings, call histories and failing allocations",
      "a fresh-process execution of the same call and a happens-before race detector",
      "Each run mixes a few nearby argument sets over 0 to 4 simulated threads, preempted inside the routines, and compares every result bit for bit "
      "with a process that made only that call.",
      [dict(name="none by design", meaning="no routine keeps state between calls", where="whole library")])
claim("C02", "A Lambert problem is a value: concurrent reads, copies and solves agree",
      "A solved Lambert problem can be read, printed, saved and copied from several threads at once, and many problems can be solved concurrently; every observation "
      "equals the one made on an identical problem solved alone in a fresh process. No read changes the problem, copies are independent of their source, and none "
      "of these operations conflict on memory.",
      ["schedules", "inputs", "fault_sequences"],
      "every interleaving of constructions and const operations on shared and private problems, for every geometry and revolution count, with allocations failing",
      "The tests build problems one at a time in one thread; they cannot see lazily filled caches, shared scratch, or shallow copies.",
      ["include/kep3/lambert_problem.hpp", "src/lambert_problem.cpp"],
      [m("the constructor computes everything, getters only return members", "src/lambert_problem.cpp")],
      "thread interleavings and failing allocations", "a fresh-process execution of the same observation and a race detector",
      "Shared problems are queried by 2 to 4 simulated threads while other problems are solved; every answer is compared bit for bit.")
claim("C03", "A low-thrust leg is a value: concurrent reads and copies agree",
      "A Sims-Flanagan leg can be evaluated (mismatch and throttle constraints, their gradients, all getters, printing, saving, copying) from several threads at once, "
      "and every observation equals the one made on an identical leg alone in a fresh process. No read changes the leg, copies are independent of "
      "their source, and none of these operations conflict on memory.",
      ["schedules", "inputs", "fault_sequences"],
      "every interleaving of const operations on shared and private legs, every segment count and cut, with allocations failing",
      "The tests never evaluate a leg twice, from two threads, or after a copy was changed.",
      ["include/kep3/leg/sims_flanagan.hpp", "src/leg/sims_flanagan.cpp", "src/core_astro/stm.cpp", "src/linalg.cpp"],
      [m("const evaluation on local arrays", "src/leg/sims_flanagan.cpp")],
      "thread interleavings and failing allocations", "a fresh-process execution of the same observation and a race detector",
      "Shared legs are evaluated by 2 to 4 simulated threads; every answer is compared bit for bit.")
claim("C04", "Any history of leg updates equals a leg built directly from the final values",
      "After any sequence of updates, copies, moves and evaluations, a Sims-Flanagan leg reports and computes exactly what a leg constructed directly "
      "with its current values would. An update with invalid values is rejected with an error and leaves the leg exactly as it was; an update "
      "cut short by memory exhaustion leaves either the old or the new values, never a mixture.",
      ["histories", "inputs", "fault_sequences", "schedules"],
      "every sequence of setter, copy, move and query calls, each possibly rejected or out of memory, alone or next to other threads using other legs",
      "Tests set each field once on a fresh leg and check the getter; derived quantities after multi-step histories and after failed updates are never looked at.",
      ["include/kep3/leg/sims_flanagan.hpp", "src/leg/sims_flanagan.cpp", "src/leg/sf_checks.cpp"],
      [m("checks before assignment in each setter", "src/leg/sims_flanagan.cpp"), m("segment counts recomputed when cut or throttles change", "src/leg/sims_flanagan.cpp")],
      "update histories with rejected arguments and failing allocations", "an executable reference model of the leg",
      "The reference model holds the plain values and decides which calls must be rejected; derived answers are compared bit for bit with a leg built from those values.",
      [dict(name="segment split", meaning="number of forward and backward segments, derived from throttles and cut", where="sims_flanagan")])
claim("C05", "What was saved durably is restored exactly, across crashes and full disks",
      "A Lambert problem or Sims-Flanagan leg that was saved and durably stored is restored after a process crash and restart to an object that reports and computes exactly "
      "the same as the saved one, whatever object it is loaded into. A save whose storage fails (full disk, I/O error) reports the failure instead of success, "
      "and saving never changes the saved object.",
      ["crash_points", "fault_sequences", "inputs", "schedules"],
      "every crash point during saves by one or more threads, every position of a write error or short write, every object value, every target of the load",
      "Tests round-trip one object through an in-memory stream that never fails and compare a few fields by printed text.",
      ["include/kep3/lambert_problem.hpp", "include/kep3/leg/sims_flanagan.hpp", "src/leg/sims_flanagan.cpp", "src/lambert_problem.cpp", "include/kep3/detail/s11n.hpp"],
      [m("serialize lists every member", "include/kep3/leg/sims_flanagan.hpp, include/kep3/lambert_problem.hpp")],
      "crash points, torn, short and failing writes on a simulated disk", "objects rebuilt from their constructor arguments",
      "The process really exits at the simulated crash; only durable bytes of the simulated disk reach the next incarnation, which loads into unrelated objects.")
claim("C06", "A failed load is an error and leaves the target whole and usable",
      "Loading a Lambert problem or Sims-Flanagan leg from storage that is truncated, torn by a crash, unreadable, or while memory runs out reports an error and never success with missing data. "
      "The object being loaded is then exactly its old value or exactly the stored one, remains fully usable, and loads correctly once the fault is gone.",
      ["fault_sequences", "crash_points", "inputs"],
      "every truncation or read-error position, every allocation that can fail during the load, every pair of target and stored object",
      "No test loads from a damaged stream or into an object with other contents.",
      ["include/kep3/lambert_problem.hpp", "include/kep3/leg/sims_flanagan.hpp"],
      [m("load into a temporary, then commit", "include/kep3/leg/sims_flanagan.hpp, include/kep3/lambert_problem.hpp")],
      "truncation points, read errors and failing allocations", "the old and the stored object, and a retry without faults",
      "After each failed load every observable of the target is compared with both admissible values; then the load is retried and the object updated and evaluated.")
claim("C07", "Running out of memory is reported, leaks nothing and poisons nothing",
      "When any allocation inside a library call fails, the call either still returns its exact correct result or reports memory exhaustion; the process does not die or hang. "
      "Repeating such calls does not make memory use grow, and every later call returns its exact correct result.",
      ["fault_sequences", "inputs", "histories"],
      "every allocation of every routine, constructor and evaluation failing, once or persistently, and every call made afterwards",
      "No test makes an allocation fail.",
      CORE + ["src/lambert_problem.cpp", "src/leg/sims_flanagan.cpp"],
      [m("RAII containers and arena-free code everywhere", "whole library")],
      "which allocation fails, in which call, once or persistently", "a fresh-process execution of the same call, and heap accounting",
      "Every call is repeated with successive allocations failing and then undisturbed; heap blocks are counted after each repetition.")

claim("C08", "Epochs follow the clock and keep exact microseconds through any history",
      "epoch::now() is the system clock's reading at some moment during the call, truncated to microseconds, whatever the clock does (jumps forward or backward between or within calls, readings "
      "from several threads). After any sequence of constructions (days, calendar, ISO string, time point), additions, subtractions, copies and reads, each epoch is exactly the microsecond "
      "count those operations add up to, its differences, comparisons, Julian dates and printed form agree with that count, invalid input is rejected and changes nothing, and epochs can be read and "
      "printed from several threads at once without conflicting on memory.",
      ["fault_sequences", "histories", "schedules", "inputs"],
      "every behaviour of the system clock, every sequence of epoch operations on one or more threads, with rejected input and failed allocations",
      "The test of now() compares two readings of a well-behaved clock; arithmetic is tested one operation at a time in one thread, and printing never concurrently.",
      ["include/kep3/epoch.hpp", "src/epoch.cpp"],
      [m("microsecond count in one integer time point", "include/kep3/epoch.hpp"), m("clock read at each call", "src/epoch.cpp")],
      "clock jumps, thread interleavings, operation histories and failing allocations", "an integer model of the epoch and the log of simulated clock readings",
      "The simulated wall clock jumps between and inside operations; monotonic time is separate. Strings are compared to the second, and to the microsecond where the installed fmt prints it.")
claim("C09", "A stored epoch is restored exactly, or the load fails and changes nothing",
      "An epoch that was saved and durably stored is restored after a crash and restart to exactly the same instant. A save on failing storage is reported. A load from truncated, torn or unreadable "
      "storage, or while memory runs out, is an error, leaves the target at exactly its old value, and succeeds once the fault is gone.",
      ["crash_points", "fault_sequences", "inputs", "schedules"],
      "every crash point during saves, every write or read error and truncation position, every instant",
      "The test round-trips one epoch through an in-memory stream that never fails.",
      ["include/kep3/epoch.hpp"], [m("save and load of the microsecond count", "include/kep3/epoch.hpp")],
      "crash points, torn, short and failing reads and writes on a simulated disk", "epochs rebuilt from their microsecond count",
      "The process really exits at the simulated crash; only durable bytes of the simulated disk reach the next incarnation.")

TA = ["src/ta/stark.cpp", "src/ta/cr3bp.cpp", "include/kep3/ta/stark.hpp", "include/kep3/ta/cr3bp.hpp"]
HF = ["src/leg/sims_flanagan_hf.cpp", "include/kep3/leg/sims_flanagan_hf.hpp"]
STUB = (" heyoka is not installed here: kep3's own code runs, above a stand-in integrator with heyoka's interface that the simulator can make throw and "
        "run out of memory.")
claim("C10", "Cached integrators: one per tolerance, shared safely by all threads",
      "The integrators returned by get_ta_stark, get_ta_cr3bp and their variational versions are the right one for the requested tolerance, every request with the same tolerance returns the same "
      "object, and a reference stays valid and unchanged for the life of the process. The reported cache sizes are the number of distinct tolerances built. "
      "This holds for any number of threads asking at once, after any request that threw or ran out of memory, and no requests conflict on memory or deadlock.",
      ["schedules", "histories", "fault_sequences"],
      "every interleaving of requests and size queries, every sequence of tolerances including invalid ones, every failed allocation",
      "Tests ask for two tolerances in one thread with enough memory.",
      TA, [m("a map from tolerance to integrator guarded by one mutex per map", "src/ta/stark.cpp, src/ta/cr3bp.cpp")],
      "thread interleavings, rejected tolerances and failing allocations", "a model of the caches, integrator fingerprints, and a race and deadlock detector",
      "References are compared by address and by the integrator they refer to, also long after they were handed out." + STUB,
      [dict(name="integrator caches", meaning="tolerance to integrator", where="src/ta")])
claim("C11", "A Stark problem equals a freshly built one after any history",
      "After any sequence of parameter changes, copies, assignments, moves, propagations (with or without variations, successful, failing or out of memory) a Stark problem reports its current mu, veff and "
      "tolerance, and propagates exactly as a new problem with those values does, and a propagation that does not reach its final time is an error. Problems in different threads never influence one another.",
      ["histories", "schedules", "fault_sequences", "inputs"],
      "every sequence of setters, copies, moves and propagations on several problems and threads, each possibly failing",
      "Tests propagate a fresh problem once.",
      ["src/stark_problem.cpp", "include/kep3/stark_problem.hpp"] + TA[:1], [m("integrators copied from the cache into each object", "src/stark_problem.cpp")],
      "operation histories over several threads with failing integrations and allocations", "a freshly built problem in a fresh process",
      "Every propagation is compared bit for bit with the same propagation by a new problem in another process." + STUB)
claim("C12", "A high-fidelity leg equals one built directly from its final values",
      "After any sequence of updates, copies, moves and evaluations a high-fidelity Sims-Flanagan leg reports and computes (mismatch, throttle constraints, gradients, state history) exactly what a leg constructed "
      "directly with its current values would. A rejected update leaves the leg exactly as it was; an update, or an evaluation, cut short by a failed integration (always an error) or memory exhaustion leaves old or new values, never a mixture. "
      "Legs used by different threads never influence one another.",
      ["histories", "schedules", "fault_sequences", "inputs"],
      "every sequence of setter, copy, move and query calls on several legs and threads, each possibly rejected, failing or out of memory",
      "Tests set each field once on a fresh leg and read it back.",
      HF + ["src/leg/sf_checks.cpp"], [m("checks before assignment in each setter", "src/leg/sims_flanagan_hf.cpp"), m("integrators owned by each leg", "include/kep3/leg/sims_flanagan_hf.hpp")],
      "update histories with rejected arguments, failing integrations and allocations", "an executable reference model and directly built legs",
      "A leg is used by one thread at a time: its integrators are mutable by design." + STUB)
claim("C13", "Stark problems and high-fidelity legs are restored whole or not at all",
      "A Stark problem or high-fidelity leg that was saved and durably stored is restored after a crash and restart to an object that reports and computes exactly the same. A save whose storage fails "
      "reports it. A load from truncated, torn or unreadable storage, or while memory runs out, is an error, leaves the target at exactly its old or the stored value and usable, and succeeds once the fault is gone.",
      ["crash_points", "fault_sequences", "inputs", "schedules"],
      "every crash point during saves, every write or read error, truncation and allocation failure, every pair of target and stored object",
      "Tests round-trip one object through an in-memory stream that never fails.",
      HF + ["src/stark_problem.cpp", "include/kep3/stark_problem.hpp"], [m("load into a temporary, then commit", "include/kep3")],
      "crash points, torn, short and failing reads and writes on a simulated disk, and failing allocations", "objects rebuilt from their constructor arguments",
      "The process really exits at the simulated crash; only durable bytes of the simulated disk reach the next incarnation." + STUB)
claim("C14", "Integrator users report memory exhaustion, leak nothing and stay correct",
      "When any allocation inside a call on an integrator cache, a Stark problem or a high-fidelity leg fails, the call either still returns its exact correct result or reports memory exhaustion; the process does not die or hang. "
      "Repeating such calls does not make memory use grow, and every later call returns its exact correct result.",
      ["fault_sequences", "inputs", "histories"],
      "every allocation of every routine, constructor and evaluation failing, once or persistently, and every call made afterwards",
      "No test makes an allocation fail.",
      TA + HF + ["src/stark_problem.cpp"], [m("RAII containers and guarded inserts", "src/ta, src/leg/sims_flanagan_hf.cpp")],
      "which allocation fails, in which call, once or persistently", "a fresh-process execution of the same call, and heap accounting",
      "Every call is repeated with successive allocations failing and then undisturbed; heap blocks are counted after each repetition." + STUB)

PLF = ["include/kep3/planet.hpp", "src/planet.cpp", "src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp", "src/udpla/vsop2013.cpp"]
STUBP = (" heyoka and tanuki are not installed here: kep3's own code runs, above stand-ins with their interfaces (type-erased wrapper, expressions, "
         "compiled functions).")
claim("C15", "Planets are values, whatever body model or user class they wrap",
      "A planet (default, Keplerian, low-precision, VSOP2013 or built from a user's class) reports and computes after any history of constructions, copies, assignments, moves, swaps and rejected calls exactly what a newly "
      "built planet with its values does, and copies are independent of their source. An exception of a user's class comes through unchanged and leaves everything as it was. Planets can be read from several threads at once, and planets and "
      "fly-by routines used in different threads never influence one another or conflict on memory.",
      ["histories", "schedules", "inputs", "fault_sequences"],
      "every history of operations on several planets and threads, every wrapped class including throwing ones, every failed allocation",
      "Tests copy a planet once and compare a getter; nothing is concurrent, and no user class throws in the middle of a history.",
      PLF + ["src/core_astro/flyby.cpp"], [m("type-erased value", "include/kep3/planet.hpp"), m("const members without hidden state", "src/udpla")],
      "operation histories, thread interleavings, throwing user classes and failing allocations", "newly built planets, a fresh-process execution, and a race detector",
      "Every planet in play is compared after every operation." + STUBP)
claim("C16", "Planets are restored whole or not at all",
      "A planet of any kind, including one of a user's class, and a Keplerian, low-precision or VSOP2013 body stored by itself, that was saved and durably stored is restored after a crash and restart to one that reports and computes "
      "exactly the same, whatever it is loaded into. A save whose storage fails reports it. A load from truncated, torn or unreadable storage, or while memory runs out, is an error, leaves the target whole (old or stored value; "
      "a bare VSOP2013 body may fall back to the default one), and succeeds once the fault is gone.",
      ["crash_points", "fault_sequences", "inputs", "schedules"],
      "every crash point during saves, every write or read error, truncation and allocation failure, every pair of target and stored planet",
      "Tests round-trip one object through an in-memory stream that never fails.",
      PLF + ["include/kep3/udpla/keplerian.hpp", "include/kep3/udpla/jpl_lp.hpp", "include/kep3/udpla/vsop2013.hpp"], [m("load into a temporary, then commit", "include/kep3/udpla")],
      "crash points, torn, short and failing reads and writes on a simulated disk, and failing allocations", "planets rebuilt from their constructor arguments",
      "The process really exits at the simulated crash; only durable bytes of the simulated disk reach the next incarnation." + STUBP)
claim("C17", "VSOP2013 models are cached per body and threshold, safely for all threads",
      "A VSOP2013 body gives, for its name and threshold, the ephemeris it gives when it is the only one ever built in a process, however many bodies with equal or different names and thresholds were built, copied, used, rejected or ran out of memory "
      "before it or in other threads at the same time. Compiled code stays valid as long as any planet uses it, and concurrent use neither conflicts on memory nor deadlocks.",
      ["schedules", "histories", "fault_sequences"],
      "every interleaving of constructions, copies and evaluations, every sequence of names and thresholds including invalid ones, every failed allocation",
      "Tests build one body at a time in one thread.",
      ["src/udpla/vsop2013.cpp", "include/kep3/udpla/vsop2013.hpp"], [m("map from body and threshold to compiled model guarded by a mutex", "src/udpla/vsop2013.cpp")],
      "thread interleavings, rejected arguments and failing allocations", "a fresh-process execution of the same call, and a race, deadlock and use-after-free detector",
      "The stand-in for compiled code reports calls after its owner was destroyed." + STUBP)
claim("C18", "Planets report memory exhaustion, leak nothing and stay correct",
      "When any allocation inside building, copying, evaluating or describing a planet fails, the call either still returns its exact correct result or reports memory exhaustion; the process does not die or hang. "
      "Repeating such calls does not make memory use grow, and every later call returns its exact correct result.",
      ["fault_sequences", "inputs", "histories"],
      "every allocation of every routine, constructor and evaluation failing, once or persistently, and every call made afterwards",
      "No test makes an allocation fail.",
      PLF, [m("RAII containers and guarded inserts", "include/kep3/planet.hpp, src/udpla")],
      "which allocation fails, in which call, once or persistently", "a fresh-process execution of the same call, and heap accounting",
      "Every call is repeated with successive allocations failing and then undisturbed; heap blocks are counted after each repetition." + STUBP)

PURE = ("A pure function of its arguments: no concurrency, time, I/O, randomness or multi-party behaviour can influence it, so there is no schedule or fault "
        "sequence to search. Deterministic simulation would reduce to ordinary input sampling. (That the function stays a pure function under any schedule, history and "
        "failed allocation is C01.)")
na("C20", "Lambert solutions satisfy the two-point boundary value problem",
   "Each velocity pair returned for a Lambert problem, propagated over the transfer time, goes from the initial to the final position, and the number of solutions is "
   "one plus twice the feasible revolutions up to the requested maximum.", ["inputs"], "every geometry, transfer time, direction and revolution count",
   "Tests sample random geometries.", ["src/lambert_problem.cpp"], [m("Householder iterations", "src/lambert_problem.cpp")], PURE)
na("C21", "Propagation is correct, reversible and conserves the invariants",
   "Ballistic propagation conserves energy and angular momentum and propagating back returns the initial state, for ellipses and hyperbolas and any time.",
   ["inputs"], "every state, time and gravitational parameter", "Tests sample random orbits.", ["src/core_astro/propagate_lagrangian.cpp"],
   [m("Lagrange coefficients", "src/core_astro/propagate_lagrangian.cpp")], PURE)
na("C22", "Element and anomaly conversions are inverses of each other",
   "Converting a state to Keplerian or equinoctial elements and back, or one anomaly into another and back, returns the original within rounding.",
   ["inputs"], "every non-singular state", "Tests sample random states.", CORE[:3] + [CORE[6]], [m("closed-form conversions", "src/core_astro")], PURE)
na("C23", "The state transition matrix is the derivative of propagation",
   "The returned matrix equals the derivative of the propagated state with respect to the initial state and is symplectic.", ["inputs"],
   "every state and time", "Tests compare with finite differences on samples.", ["src/core_astro/stm.cpp"], [m("Reynolds' formulation", "src/core_astro/stm.cpp")], PURE)
na("C24", "Leg gradients are the derivatives of the leg constraints",
   "The gradients returned by a leg equal the derivatives of its mismatch and throttle constraints.", ["inputs"], "every leg",
   "Tests compare a few legs with finite differences.", ["src/leg/sims_flanagan.cpp"], [m("chain of state transition matrices", "src/leg/sims_flanagan.cpp")], PURE)
na("C25", "Fly-by constraints and costs follow from the hyperbolic encounter",
   "Fly-by constraints, impulse and outgoing velocity are consistent with one another for any encounter.", ["inputs"], "every encounter",
   "Tests sample a few.", ["src/core_astro/flyby.cpp"], [m("closed form", "src/core_astro/flyby.cpp")], PURE + " The file is not part of this sandbox's build either.")
na("C28", "The Python layer exposes the library faithfully",
   "Objects wrapped in Python behave as their C++ counterparts, including pickling, threads and exceptions.", ["histories", "schedules"], "every use from Python",
   "Python tests sample the API.", ["pykep"], [m("pybind11 bindings", "pykep")],
   "pybind11 and a Python development environment are absent here and the layer cannot be built; an interpreter cannot be put under the simulator's scheduler.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    man = dict(version=1, setup_cmd="python3 build.py",
               hooks=dict(guard="KEP3SIM (no hook was needed: the guard is unused)",
                          enable="The checks compile /repo's sources with compiler instrumentation and link them to the simulator's own runtime; nothing in /repo is guarded.",
                          source_commits=[]),
               checks=[dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py " + p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique=p["_check"][0], level="exploration", level_note=p["_check"][1])
                       for p in P if "_check" in p],
               not_applicable=[dict(property=p["id"], reason=p["_na"]) for p in P if "_na" in p])
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
