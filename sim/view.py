"""What each party of a simulated deployment gets to see.

The view of a party is everything that reached its device from another device, every
random draw made on it, and every expansion, wherever it was made, of a seed it knows.
"""
import numpy as np

from .boot import ENTROPY, SimConfig, dev, device_of, is_random_op, tf  # noqa: F401

SKIP = (tf.resource, tf.variant, tf.string)
SEEDS = ("SecureSeed",)
# results that say nothing new
MOVES = {"Identity", "IdentityN", "Reshape", "Squeeze", "ExpandDims", "StridedSlice", "Const", "Shape", "Pack", "Unpack", "ConcatV2",
         "Transpose", "Split", "SplitV", "Slice", "Fill", "Range", "ZerosLike", "OnesLike", "BroadcastTo", "Tile", "Rank", "Size",
         "ReadVariableOp", "VarHandleOp", "AssignVariableOp", "PlaceholderWithDefault", "NoOp", "GatherV2", "Pad", "PadV2", "_Arg",
         "BroadcastArgs", "BroadcastGradientArgs", "SecureSeed", "StopGradient", "CopyHost", "Bitcast"}
TELLING = {"Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "FloorMod", "Mod", "Sum", "Max", "Min", "Any", "All",
           "LogicalAnd", "LogicalOr", "LogicalNot", "Select", "SelectV2", "ArgMax", "ArgMin", "TopKV2", "Cast"}


def is_seed(t):
    try:
        return t.dtype == tf.int32 and t.shape.rank == 1 and t.shape[0] == 8
    except Exception:
        return False


class Item:
    __slots__ = ("op", "kind", "t", "arr", "seq", "stage", "src", "last", "direct")

    def __init__(self, op, kind, t, seq, stage, src):
        self.last, self.direct = False, False  # used by no other operation; computed from a message as it came
        self.op, self.kind, self.t, self.seq, self.stage, self.src = op, kind, t, seq, stage, src
        self.arr = None


class Draw:
    """One random draw: by whom, from which seed (None: fresh entropy)."""

    __slots__ = ("op", "where", "seed", "t", "seq", "stage", "args", "tag", "fresh")

    def __init__(self, op, where, seed, t, seq, stage, args, tag):
        self.tag, self.fresh = tag, False
        self.op, self.where, self.seed, self.t, self.seq, self.stage, self.args = op, where, seed, t, seq, stage, args


class Views:
    def __init__(self):
        self.items = {}  # device -> [Item]
        self.have = {}  # device -> set of tensor ids
        self.keep = []  # tensors stay alive, so ids stay unique
        self.draws = []
        self.flows = []  # (device, seed-like output, seed-like inputs)
        self.stage = "input"
        self.tag = (0, "", 0)  # call, step, attempt
        self.seq = 0
        self.plain_random = {}
        self.local = {}  # device -> results computed there from what it got
        self.keep_local = True
        self.raw = set()  # (device, tensor): received there and at most moved around since
        self.root = {}  # result of moving data around -> what was moved
        self.used = set()  # (device, tensor)
        self.volume = 0  # elements produced by all operations

    def attach(self, sim):
        sim.listeners.append(self.on_op)

    def add(self, where, op, kind, t, src):
        h = self.have.setdefault(where, set())
        if id(t) in h:
            return
        h.add(id(t))
        self.keep.append(t)
        self.items.setdefault(where, []).append(Item(op, kind, t, self.seq, self.stage, src))

    def on_op(self, sim, op_type, inputs, outputs, where, moved):
        self.seq += 1
        if self.stage == "compute":
            for o in outputs:
                try:
                    self.volume += o.shape.num_elements() or 0
                except (AttributeError, ValueError):
                    pass
        for d, t in moved:
            if t.dtype in SKIP:
                continue
            self.add(where, op_type, "msg", t, d)
            self.raw.add((where, id(t)))
        if self.keep_local and self.stage == "compute":
            # tensors are told apart by id(): none of them may go away
            self.keep.extend(inputs)
            self.keep.extend(outputs)
            roots = [self.root.get(id(i), id(i)) for i in inputs]
            if op_type in MOVES:
                for o in outputs:
                    self.keep.append(o)
                    if roots:
                        self.root[id(o)] = roots[0]
            else:
                self.used.update((where, r) for r in roots)
        if is_random_op(op_type):
            seed = None
            if "Seeded" in op_type:
                for i in inputs:
                    if is_seed(i):
                        seed = i
                        break
            elif not op_type.startswith(("Secure", "I128")):
                self.plain_random[op_type] = self.plain_random.get(op_type, 0) + 1
            for o in outputs:
                if o.dtype in SKIP:
                    continue
                self.keep.append(o)
                args = tuple(i for i in inputs if i is not seed and i.dtype not in SKIP)
                self.keep.extend(args)
                self.draws.append(Draw(op_type, where, seed, o, self.seq, self.stage, args, self.tag))
                if seed is None:
                    self.add(where, op_type, "draw", o, None)
            if seed is not None:
                self.keep.append(seed)
        elif op_type in SEEDS:
            for o in outputs:
                self.keep.append(o)
                self.flows.append((where, o, ()))
        if self.keep_local and self.stage == "compute" and op_type not in MOVES and not is_random_op(op_type):
            for o in outputs:
                if o.dtype in SKIP or is_seed(o):
                    continue
                self.keep.append(o)
                it = Item(op_type, "result", o, self.seq, self.stage, None)
                it.direct = any((where, r) in self.raw for r in roots)
                self.local.setdefault(where, []).append(it)
        for o in outputs:
            if is_seed(o) and op_type not in SEEDS:
                ins = tuple(i for i in inputs if is_seed(i))
                self.keep.append(o)
                self.keep.extend(ins)
                self.flows.append((where, o, ins))

    # after the run ----------------------------------------------------------
    def finish(self, sim, pick=None):
        """Fetch the values, work out who knows which seed."""
        for where, items in self.local.items():
            h = self.have.setdefault(where, set())
            for it in items:
                it.last = (where, id(it.t)) not in self.used
            for it in (pick(items) if pick else []):
                if id(it.t) not in h:
                    h.add(id(it.t))
                    self.items.setdefault(where, []).append(it)
        self.local = {}
        with sim.pause():
            cache = {}

            def val(t):
                k = id(t)
                if k not in cache:
                    cache[k] = np.asarray(t.numpy())
                return cache[k]

            know = {}  # seed bytes -> set of devices

            def sb(t):
                return val(t).tobytes()

            for where, o, ins in self.flows:
                know.setdefault(sb(o), set()).add(where)
                for i in ins:
                    know.setdefault(sb(i), set()).add(where)
            for where, items in self.items.items():
                for it in items:
                    if is_seed(it.t):
                        know.setdefault(sb(it.t), set()).add(where)
            for d in self.draws:
                if d.seed is not None:
                    know.setdefault(sb(d.seed), set()).add(d.where)
            changed = True
            while changed:
                changed = False
                for where, o, ins in self.flows:
                    if not ins:
                        continue
                    got = set.intersection(*[know[sb(i)] for i in ins])
                    k = know[sb(o)]
                    if not got <= k:
                        k |= got
                        changed = True
            for d in self.draws:
                if d.seed is None:
                    continue
                for where in sorted(know[sb(d.seed)], key=str):
                    h = self.have.setdefault(where, set())
                    if id(d.t) in h:
                        continue
                    h.add(id(d.t))
                    self.items.setdefault(where, []).append(Item(d.op, "draw", d.t, d.seq, d.stage, None))
            for items in self.items.values():
                items.sort(key=lambda it: it.seq)
                for it in items:
                    it.arr = val(it.t)
            fresh = {sb(o) for where, o, ins in self.flows if not ins}
            for d in self.draws:
                d.fresh = d.seed is not None and sb(d.seed) in fresh
                d.args = tuple(val(a) for a in d.args)
                if d.seed is not None:
                    d.seed = val(d.seed).tobytes()
                d.t = val(d.t)
            self.know = know
            for items in self.items.values():
                for it in items:
                    it.t = None
            self.keep = []
            self.flows = []
            self.raw, self.root, self.used = set(), {}, set()
        return self
