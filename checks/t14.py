"""Queues and models served through them: in order, once, with their own data."""
from sim.serving import decide_serving
from sim.serving import gen_serving
from sim.serving import shrink_serving

META = {
    "runs": {"quick": 600, "thorough": 20000},
    "rule": "a run counts when values went through a queue; distinct means distinct order of actors' turns",
    "run_timeout": 120,
    "recycle": 100,
    "faults": ["client_crashed", "server_restarted", "slow_party", "partition", "message_delay"],
    "probes": ["act_queue", "act_serve", "waited_for_a_queue", "taken", "answered", "several_clients"],
    "real": ["tf_encrypted.queue", "tf_encrypted.serving", "Pond and SecureNN", "TensorFlow's FIFO queue kernels"],
    "stubs": ["blocking inside the queue kernels: an actor waits in the simulator until its queue has room or a value", "network: message delays between devices of traced steps"],
    "measure": "kind, protocol, actors, waits, switches | order of turns",
}


def gen(seed, index, tier):
    return gen_serving(seed)


def run(spec):
    return decide_serving(spec)


shrink = shrink_serving
