"""SecureNN comparisons and non-linear operations are exact."""
from sim.family_securenn import SNN_FAMILY
from sim.progs import decide
from sim.progs import gen_program
from sim.progs import shrink_program

META = {
    "runs": {"quick": 900, "thorough": 40000},
    "rule": "a run counts when its program has at least one operation; distinct means distinct program, mode, schedule and fault list",
    "run_timeout": 120,
    "recycle": 80,
    "faults": ["connection_lost", "abort", "alloc_fail", "message_delayed", "partition_hit", "slow_party"],
    "probes": ["retried_after_fault", "mode_eager", "mode_debug", "mode_function"],
    "real": ["tf_encrypted.protocol.securenn", "tf_encrypted.protocol.pond", "tf_encrypted.tensor", "tf_encrypted.operations.secure_random (native, rebuilt)", "TensorFlow kernels"],
    "stubs": ["cluster: one process, one logical device per party", "OS entropy: seeded stream behind libsodium's implementation hook", "TensorFlow's executor, for tfe.function: node-by-node seeded scheduler"],
    "measure": "operation | operand kinds | scaling | protocol | mode | ranks; schedules by a rolling hash of the node order",
}


def gen(seed, index, tier):
    return gen_program(SNN_FAMILY, seed, protocols=("securenn",) * 6 + ("securenn-ni",) * 6 + ("securenn100",))


def run(spec):
    return decide(SNN_FAMILY, spec)


shrink = shrink_program
