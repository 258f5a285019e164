"""Executions of a whole worker, judged by WorkerTrace."""
import sim, proj

MODULE = "WorkerTrace"
load = sim.Scenario.load


def record(scs):
    return [proj.project(s, e, i) for i, (s, e) in enumerate(zip(scs, sim.run(scs)))]
