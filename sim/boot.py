"""Process-wide bootstrap of the simulator.

Imported first by every worker.  It puts every source of nondeterminism behind a
seam:

* parties        -> distinct logical CPU devices of this one process
                    (`SimConfig`, an implementation of tf_encrypted's own Config
                    abstraction), so that every transfer between two parties is an
                    op whose input lives on another device;
* OS entropy     -> libsodium's own `randombytes_set_implementation` hook, fed by a
                    seeded stream;
* python / numpy / tf random -> reseeded for every run;
* threads        -> one inter-op and one intra-op thread, ops dispatched one by one;
* op dispatch    -> a TensorFlow op callback, through which runs are recorded and
                    faults are injected.
"""
import ctypes
import ctypes.util
import hashlib
import os
import random

os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("TF_USE_LEGACY_KERAS", "1")

import tfe_tf_compat  # noqa: F401,E402
import numpy as np  # noqa: E402
import tensorflow as tf  # noqa: E402

N_DEVICES = 12
tf.config.set_logical_device_configuration(
    tf.config.list_physical_devices("CPU")[0],
    [tf.config.LogicalDeviceConfiguration() for _ in range(N_DEVICES)],
)
tf.config.threading.set_inter_op_parallelism_threads(1)
tf.config.threading.set_intra_op_parallelism_threads(int(os.environ.get("TFESIM_KERNEL_THREADS", "1")))
tf.get_logger().setLevel("ERROR")

import logging  # noqa: E402

logging.getLogger("tf_encrypted").setLevel(logging.ERROR)

# --------------------------------------------------------------------------
# entropy seam


class Entropy:
    """Deterministic replacement for the operating system's entropy."""

    def __init__(self):
        self.reseed(0)
        self.calls = 0

    def reseed(self, seed, mode="uniform"):
        self.gen = np.random.Generator(np.random.PCG64(seed & (2**63 - 1)))
        self.mode = mode
        self.log = []
        self.calls = 0

    def bytes(self, n):
        self.calls += 1
        b = self.gen.bytes(n)
        if self.mode == "zero":
            b = b"\0" * n
        self.log.append(hashlib.sha256(b).digest()[:8])
        if len(self.log) > 65536:
            del self.log[:32768]
        return b


ENTROPY = Entropy()


class _Impl(ctypes.Structure):
    _fields_ = [
        ("implementation_name", ctypes.CFUNCTYPE(ctypes.c_char_p)),
        ("random", ctypes.CFUNCTYPE(ctypes.c_uint32)),
        ("stir", ctypes.CFUNCTYPE(None)),
        ("uniform", ctypes.c_void_p),
        ("buf", ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_size_t)),
        ("close", ctypes.CFUNCTYPE(ctypes.c_int)),
    ]


def _install_entropy():
    lib = ctypes.CDLL("libsodium.so.23", mode=ctypes.RTLD_GLOBAL)

    def rnd():
        return int.from_bytes(ENTROPY.bytes(4), "little")

    def buf(p, n):
        if n:
            ctypes.memmove(p, ENTROPY.bytes(n), n)

    impl = _Impl(
        _Impl._fields_[0][1](lambda: b"sim"),
        _Impl._fields_[1][1](rnd),
        _Impl._fields_[2][1](lambda: None),
        None,
        _Impl._fields_[4][1](buf),
        _Impl._fields_[5][1](lambda: 0),
    )
    lib.randombytes_set_implementation(ctypes.byref(impl))
    return lib, impl


_SODIUM = _install_entropy()

import tf_encrypted as tfe  # noqa: E402
from tensorflow.python.eager import context  # noqa: E402
from tensorflow.python.framework import op_callbacks  # noqa: E402
from tf_encrypted.config import Config  # noqa: E402
from tf_encrypted.player import Player  # noqa: E402

# --------------------------------------------------------------------------
# cluster seam


def dev(i):
    return "/job:localhost/replica:0/task:0/device:CPU:%d" % i


MASTER = "master"


class SimConfig(Config):
    """Every player on a device of its own; device 0 is the client ("master")."""

    def __init__(self, names=("server0", "server1", "server2"), debug_mode=False):
        super().__init__(debug_mode)
        self._players = {}
        for n in names:
            self.add_player(n)

    def add_player(self, name):
        i = len(self._players) + 1
        assert i < N_DEVICES, "too many simulated players"
        p = Player(name=name, index=i - 1, device_name=dev(i))
        self._players[name] = p
        return p

    @property
    def players(self):
        return list(self._players.values())

    def get_player(self, name_or_player):
        if isinstance(name_or_player, Player):
            assert name_or_player in self._players.values()
            return name_or_player
        if name_or_player not in self._players:
            self.add_player(name_or_player)
        return self._players[name_or_player]

    def get_players(self, names):
        if isinstance(names, str):
            names = [n.strip() for n in names.split(",")]
        return [p for n, p in self._players.items() if n in names]

    def party_of(self, device):
        for n, p in self._players.items():
            if p.device_name == device:
                return n
        return MASTER


# --------------------------------------------------------------------------
# op dispatch seam

CURRENT = None  # the Sim in control, or None


def _callback(op_type, inputs, attrs, outputs, op_name=None, graph=None):
    sim = CURRENT
    if sim is None or graph is not None:
        return None
    op_type = op_type.decode() if isinstance(op_type, bytes) else op_type
    return sim.on_op(op_type, inputs, outputs)


op_callbacks.add_op_callback(_callback)


def device_of(t):
    try:
        return t.device
    except Exception:  # symbolic tensor
        return None


def reset_library_state():
    """Forget everything tf_encrypted keeps between programs (best effort).

    Only bounds memory and isolates runs; a run never relies on it.
    """
    try:
        from tf_encrypted.protocol import protocol as _pp

        nodes = getattr(_pp, "nodes", None)
        if isinstance(nodes, dict):
            nodes.clear()
    except Exception:
        pass


def seed_everything(seed, mode="uniform"):
    ENTROPY.reseed(seed, mode)
    random.seed(seed)
    np.random.seed(seed & 0xFFFFFFFF)
    tf.random.set_seed(seed & 0x7FFFFFFF)


RANDOM_OPS = (
    "SecureSeededRandomUniform",
    "SecureRandomUniform",
    "I128SecureSeededRandomUniform",
    "I128SecureRandomUniform",
)
RANDOM_OP_HINTS = ("Random",)


def is_random_op(op_type):
    return op_type in RANDOM_OPS or "Random" in op_type


class SimFault(Exception):
    pass


class StepLimit(Exception):
    pass


class Sim:
    """Control of one simulated execution."""

    def __init__(self, seed, entropy_mode="uniform", max_ops=400000):
        self.seed = seed
        self.entropy_mode = entropy_mode
        self.max_ops = max_ops
        self.ops = 0
        self.messages = 0
        self.digest = hashlib.sha256()
        self.hash_values = False
        self.listeners = []
        self.fail_at = {}  # op index -> kind
        self.fail_filter = None
        self.down = set()
        self.injected = {}
        self.suspended = 0
        self.scheduler = None
        self.graph_runs = None  # list: keep what every node of a traced execution gave
        self.graph_steps = 0
        self.fail_before = {}  # graph node count -> kind

    def count_step(self):
        self.graph_steps += 1

    def before_node(self, node, party):
        """Called by the graph executor before a node runs."""

    # context ---------------------------------------------------------------
    def __enter__(self):
        global CURRENT
        seed_everything(self.seed, self.entropy_mode)
        CURRENT = self
        return self

    def __exit__(self, *a):
        global CURRENT
        CURRENT = None
        return False

    def pause(self):
        sim = self

        class _P:
            def __enter__(self):
                sim.suspended += 1

            def __exit__(self, *a):
                sim.suspended -= 1

        return _P()

    # events ----------------------------------------------------------------
    def on_op(self, op_type, inputs, outputs):
        if self.suspended:
            return None
        self.ops += 1
        if self.ops > self.max_ops:
            raise StepLimit("more than %d operations without finishing" % self.max_ops)
        if outputs:
            where = device_of(outputs[0])
        elif inputs:
            where = device_of(inputs[0])
        else:
            where = None
        moved = []
        for i in inputs:
            d = device_of(i)
            if d is not None and where is not None and d != where:
                moved.append((d, i))
        self.messages += len(moved)
        self.digest.update(("%s|%s|%d;" % (op_type, where, len(moved))).encode())
        if self.hash_values:
            with self.pause():
                for o in outputs:
                    if o.dtype not in (tf.resource, tf.variant):
                        v = o.numpy()
                        self.digest.update(
                            v.tobytes() if isinstance(v, np.ndarray) else repr(v).encode()
                        )
        if self.down:
            if where in self.down or any(d in self.down for d, _ in moved):
                self.count("refused_by_down_party")
                raise tf.errors.UnavailableError(None, None, "sim: party is down")
        kind = self.fail_at.get(self.ops)
        if kind is not None:
            self.count(kind)
            if kind == "alloc_fail":
                raise tf.errors.ResourceExhaustedError(None, None, "sim: out of memory")
            if kind == "abort":
                raise tf.errors.AbortedError(None, None, "sim: step aborted")
            raise tf.errors.UnavailableError(None, None, "sim: connection lost")
        for f in self.listeners:
            f(self, op_type, inputs, outputs, where, moved)
        return None

    def count(self, kind, n=1):
        self.injected[kind] = self.injected.get(kind, 0) + n


def fresh(protocol="aby3", names=("server0", "server1", "server2"), debug=False, **kw):
    """New cluster, new protocol instance."""
    reset_library_state()
    cfg = SimConfig(names, debug_mode=debug)
    tfe.set_config(cfg)
    prot = make_protocol(protocol, **kw)
    tfe.set_protocol(prot)
    return cfg, prot


def make_protocol(protocol, **kw):
    from tf_encrypted.protocol import ABY3, Pond, SecureNN
    from tf_encrypted.tensor import fixed100, fixed100_ni, fixed64, fixed64_ni

    if protocol == "aby3":
        return ABY3(**kw)
    if protocol == "aby3-128":
        return ABY3(fixedpoint_config="high", **kw)
    base, _, variant = protocol.partition("-")
    cfg = {
        ("", ""): fixed64,
        ("", "ni"): fixed64_ni,
        ("100", ""): fixed100,
        ("100", "ni"): fixed100_ni,
    }[(base[len("pond"):] if base.startswith("pond") else base[len("securenn"):], variant)]
    cls = Pond if base.startswith("pond") else SecureNN
    return cls(fixedpoint_config=cfg, **kw)
