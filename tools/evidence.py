"""Builds the evidence record of one check run from what the simulation measured."""
from config import CONFIG

STUBS = {
    "pthread mutex/cond/thread creation": "simulated: who runs next is a seeded choice",
    "futex system call": "simulated, with spurious wake-ups and EINTR",
    "clocks, sleeping, timerfd": "simulated discrete-event time",
    "eventfd, epoll, poll": "simulated descriptor table",
    "files (open/read/write/lseek/stat/close)": "simulated in-memory file system with faults",
    "UDP sockets": "simulated network",
    "malloc/free": "simulated heap with use-after-free, bounds and double-free detection",
    "stdout and log file (stdio)": "simulated, buffered until flushed",
    "process exit and raise": "recorded; ends the simulated process",
}


def evidence(pid, a, c, x):
    res, tot = x["res"], x["tot"]
    n, wall = x["runs"], x["wall"]
    seeds_h = n * 3600 / max(wall, 0.001)
    samples = []
    for r in res[:1]:
        samples.append(dict(scenario=pid, seed=a.seed, first_run=0, runs_of_this_worker=r["runs"], steps=r["steps"],
                            longest_run_steps=r["max_steps"], simulated_ms=r["sim_ns"] / 1e6,
                            reproduce="%s --trace-run 0 --seed %d prints the complete event trace of run 0" % ("build/.../%s.bin" % pid, a.seed)))
    for v in x["found"][:4]:
        samples.append(dict(violation=v["class"], message=v["message"], run=v["index"], replay=v["replay"], listed_as_known=v["known"],
                            choices=v["choices"], minimised_to=v["minimised"]))
    cov = dict(
        evaluations=n,
        distinct_nontrivial=x["sigs"],
        rule=("One evaluation is one simulated run of the real library code under a seeded scheduler and fault injector, judged by the scenario's oracle. "
              "Runs are counted as distinct by the hash of their sequence of (thread, operation, object) events, times left out; "
              "each executes at least one workload of the scenario, so equal hashes are the only trivial repeats."),
        samples=samples,
        simulated_runs_per_hour=round(seeds_h),
        seeds_per_hour=round(seeds_h),
        simulated_seconds=round(tot("sim_ns") / 1e9, 3),
        scheduling_points=tot("steps"),
        memory_accesses_observed=tot("mem"),
        context_switches=tot("switches"),
        preemptions=tot("preemptions"),
        simulated_threads=tot("threads"),
        longest_run_steps=max([r["max_steps"] for r in res] or [0]),
        faults_injected={k: v for k, v in sorted(x["faults"].items()) if v["fired"]},
        faults_enabled_never_fired=sorted(k for k, v in x["faults"].items() if not v["fired"]),
        reach_probes=x["probes"],
        probes_not_reached=x["missing"],
        determinism=dict(runs_executed_twice=tot("twice"), differing=tot("mismatch")),
        choice_overflow_runs=tot("overflow"),
        real_components=c.get("real", ["rpp/impl/*.cpp", "rpp/pos/*.cpp and every header they and the scenario include, compiled from the working tree"]),
        stub_components=STUBS,
        host_symbols_not_modelled=x["host"],
        stopped_by_time_cap=any(r["timed_out"] for r in res),
        workers=x["workers"],
        known_findings=[dict(what=k["what"], runs=x["kf"].get(i, 0)) for i, k in enumerate(x["known"])],
        problems=x["problems"],
        exhaustive=False,
    )
    return dict(
        property=pid,
        tier="quick" if a.tier == "quick" else "thorough",
        seed=a.seed,
        level=c.get("level", "exploration"),
        coverage=cov,
        assumptions=[
            "Sampling: a clean batch is evidence, not proof.",
            "Scheduling is sequentially consistent at instrumented accesses; weaker memory orders are judged by happens-before checking of the data each scenario watches.",
            "The simulated operating system behaves as POSIX and Linux document.",
        ] + c.get("assumptions", []),
        wall_s=round(wall, 3),
        violations=len(x["reported"]),
    )
