"""Secure randomness is uniform, deterministic in its seed and never repeats."""
import os

os.environ.update(TFESIM_KERNEL_THREADS="4")

from sim.randomness import decide_randomness  # noqa: E402
from sim.randomness import gen_randomness  # noqa: E402
from sim.randomness import shrink_randomness  # noqa: E402

META = {
    "runs": {"quick": 1200, "thorough": 60000},
    "rule": "a run counts when it checked at least one draw; distinct means distinct list of sources, ranges, shapes and executors",
    "run_timeout": 60,
    "recycle": 150,
    "faults": [],
    "probes": ["checks_made", "act_draw", "act_small", "act_seeded", "act_fresh", "act_sharded", "act_source", "act_edges", "act_refuse",
               "threaded_draws", "entropy_requests", "edge_draws", "seeds_drawn", "protocol_programs"],
    "real": ["secure_random kernels and their Python wrappers", "samplers of all tensor factories", "TensorFlow's own executors (eager and traced, with its graph optimiser)",
             "input, variable, triple and comparison masks of Pond, SecureNN and ABY3"],
    "stubs": ["operating system entropy: libsodium's randombytes hook, fed by a seeded stream", "in 'edges' runs the kernels below the factories: they give the ends of the range asked for"],
    "measure": "action | source | how or range width",
}


def gen(seed, index, tier):
    return gen_randomness(seed)


def run(spec):
    return decide_randomness(spec)


shrink = shrink_randomness
