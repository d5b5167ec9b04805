"""What each check runs: workloads with weights and environment profiles, time budgets, evidence text."""
FAULTK = ["alloc", "bigalloc", "thread", "rdrand", "open", "write", "shortwrite", "read", "shortread", "close", "spurious"]
PROBES = {"1": "projection on a rare outcome, state re-read", "2": "register split", "3": "separable range discarded", "4": "operation failed by an injected fault", "5": "near-tie random draw excused", "6": "step budget of an exponentially costly program exhausted"}
ENVS = {"default": [{}]}
D = [{}]
SCHED = ["thread interleaving at synchronisation points", "preemption inside plain code", "spurious wake-ups", "priority inversion (PCT)"]
PLAN = {
    "C01": {"plan": [("gates", 3, D), ("serial", 0.7, D)], "level": "exploration", "faults": SCHED,
            "what": "random gate histories on the dense engine with random thread counts, chunk sizes and schedules"},
    "C02": {"plan": [("pipe", 1, D)], "level": "exploration", "faults": SCHED,
            "what": "short histories of queued gates followed by overwrites, clones, reads and destruction"},
    "C03": {"plan": [("clone", 3, D), ("pipe", 1, D)], "level": "exploration", "faults": SCHED,
            "what": "histories on several registers that are cloned, changed and destroyed"},
    "C04": {"plan": [("engine", 3, D), ("pipe", 1, D)], "level": "exploration", "faults": SCHED,
            "what": "random histories over all operations of the dense engine"},
    "C05": {"plan": [("arith", 1, D)], "level": "exploration", "faults": SCHED,
            "what": "random arithmetic and logic histories on random states"},
    "C06": {"plan": [("meas", 1, D), ("born", 1, D)], "level": "exploration", "faults": SCHED + ["extreme random draws"],
            "what": "histories with many measurements, ordinary and extreme random draws"},
    "C07": {"plan": [("query", 1, D)], "level": "exploration", "faults": SCHED,
            "what": "histories with many queries"},
    "C08": {"plan": [("struct", 1, D)], "level": "exploration", "faults": SCHED,
            "what": "histories that compose, split, allocate and dispose registers"},
    "C09": {"plan": [("fault", 1, D)], "level": "exploration", "faults": SCHED + ["failed allocation (any)", "failed allocation (state vectors)", "failed thread creation", "failed hardware random instruction"],
            "what": "random histories during which allocations, thread creations and hardware random reads fail at chosen points"},
    "L01": {"plan": [("l_qunit", 1, D)], "level": "exploration", "faults": SCHED + ["extreme random draws"],
            "what": "random histories over all operations of the factoring layer over the dense engine"},
    "L02": {"plan": [("l_stab", 1, D)], "level": "exploration", "faults": SCHED + ["extreme random draws"],
            "what": "random Clifford histories on the stabilizer and the factored stabilizer"},
    "L03": {"plan": [("l_sh", 1, D)], "level": "exploration", "faults": SCHED + ["extreme random draws"],
            "what": "random Clifford, near-Clifford and general histories on the stabilizer hybrid, alone and below the factoring layer"},
    "L06": {"plan": [("l_pager", 1, D)], "level": "exploration", "faults": SCHED + ["extreme random draws"],
            "what": "random histories over all operations of the paging layer, alone and below the factoring layer"},
    "T01": {"plan": [("threads", 1, D)], "level": "exploration", "faults": SCHED,
            "what": "two or three client threads with simulators of their own"},
}
