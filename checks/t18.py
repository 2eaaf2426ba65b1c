"""Private inference equals the plaintext model."""
from sim.nnrun import decide_nn
from sim.nnrun import gen_infer
from sim.nnrun import shrink_nn

META = {
    "runs": {"quick": 600, "thorough": 20000},
    "rule": "a run counts when at least one result was compared with the plain model's; distinct means distinct execution trace and results",
    "run_timeout": 200,
    "recycle": 60,
    "faults": ["connection_lost", "abort", "alloc_fail"],
    "probes": ["checks_made", "act_forward", "act_predict", "act_clone", "act_evaluate", "mode_function", "mode_debug", "mode_eager", "completed_after_fault"],
    "real": ["tf_encrypted.keras", "all protocols below it"],
    "stubs": ["network and executor of traced functions: the simulator's scheduler", "operating system entropy"],
    "measure": "protocol | action | mode | layers",
}


def gen(seed, index, tier):
    return gen_infer(seed)


def run(spec):
    return decide_nn(spec)


shrink = shrink_nn
