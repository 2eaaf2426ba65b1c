"""ABY3: approximations."""
from sim.family_aby3 import APPROX_FAMILY
from sim.progs import decide
from sim.progs import gen_program
from sim.progs import shrink_program

META = {
    "runs": {"quick": 400, "thorough": 40000},
    "rule": "a run counts when its program has at least one operation; distinct means distinct program, mode, schedule and fault list",
    "run_timeout": 120,
    "recycle": 80,
    "faults": ["connection_lost", "abort", "alloc_fail", "message_delayed", "partition_hit", "slow_party"],
    "probes": ["retried_after_fault", "mode_eager", "mode_debug", "mode_function"],
    "real": ["tf_encrypted.protocol.aby3", "tf_encrypted.tensor", "secure random and 128-bit integer operations (native, rebuilt)", "TensorFlow kernels"],
    "stubs": ["cluster: one process, one logical device per party", "OS entropy: seeded stream behind libsodium's implementation hook", "TensorFlow's executor, for tfe.function: node-by-node seeded scheduler"],
    "measure": "operation | operand kinds | scaling | protocol | mode | ranks; schedules by a rolling hash of the node order",
}


def gen(seed, index, tier):
    only = ["maxpool2d_same_negative"] if index % 100 == 0 else None  # keeps the known finding in sight
    return gen_program(APPROX_FAMILY, seed, only=only, protocols=("aby3", "aby3", "aby3", "aby3-128"))


def run(spec):
    return decide(APPROX_FAMILY, spec)


shrink = shrink_program
