"""Execution of traced functions under the simulator's scheduler.

A function compiled by tf_encrypted (`tfe.function`, the serving queues, ...) ends in
`ConcreteFunction._call_flat`.  While a `Sim` with a `Scheduler` is in control, that call
is executed here node by node instead of by TensorFlow's executor: every party (device)
has its own set of runnable nodes, a value needed by another party travels as a message
with a seeded delay, and the seed decides which party steps next and which of its
runnable nodes it runs.  Data and control dependencies are respected, nothing else is:
those are exactly the freedoms a real deployment has.
"""
import heapq
import random

import tensorflow as tf
from tensorflow.core.framework import types_pb2  # noqa: F401
from tensorflow.python.eager import context
from tensorflow.python.eager import execute
from tensorflow.python.eager.polymorphic_function import concrete_function as _cf
from tensorflow.python.framework import tensor_util

from . import boot

_ORIG = _cf.ConcreteFunction._call_flat


class Deadlock(Exception):
    pass


def _attr(op, key, val):
    kind = val.WhichOneof("value")
    if kind == "type":
        return val.type
    if kind == "s":
        return val.s
    if kind == "i":
        return val.i
    if kind == "f":
        return val.f
    if kind == "b":
        return val.b
    if kind == "shape":
        if val.shape.unknown_rank:
            return None
        return [d.size for d in val.shape.dim]
    if kind == "func":
        return val.func.name
    if kind == "list":
        li = val.list
        if len(li.type):
            return list(li.type)
        if len(li.i):
            return list(li.i)
        if len(li.f):
            return list(li.f)
        if len(li.b):
            return list(li.b)
        if len(li.s):
            return list(li.s)
        if len(li.shape):
            return [None if s.unknown_rank else [d.size for d in s.dim] for s in li.shape]
        if len(li.func):
            return [f.name for f in li.func]
        return []
    if kind == "tensor":
        return val.tensor
    return None


class Node:
    __slots__ = ("op", "type", "attrs", "dev", "n_out", "inputs", "controls", "const", "idx", "single")


_PLANS = {}


def plan(fg):
    key = id(fg)
    hit = _PLANS.get(key)
    if hit is not None and hit[0] is fg:
        return hit[1]
    nodes = []
    index = {}
    for op in fg.get_operations():
        n = Node()
        n.op = op
        n.type = op.type
        n.idx = len(nodes)
        n.dev = op.device or ""
        n.n_out = len(op.outputs)
        n.const = None
        attrs = []
        if op.type == "Const":
            n.const = tensor_util.MakeNdarray(op.get_attr("value"))
        elif op.type not in ("Placeholder",):
            nd = op.node_def
            for k in sorted(nd.attr):
                if k.startswith("_"):
                    continue
                attrs.append(k)
                attrs.append(_attr(op, k, nd.attr[k]))
        n.attrs = tuple(attrs)
        index[op.name] = n.idx
        nodes.append(n)
    for n in nodes:
        n.inputs = [(index[t.op.name], t.value_index) for t in n.op.inputs]
        n.controls = [index[o.name] for o in n.op.control_inputs]
    if len(_PLANS) > 64:
        _PLANS.clear()
    _PLANS[key] = (fg, (nodes, index))
    return nodes, index


class Scheduler:
    """Seeded decisions about one simulated deployment."""

    def __init__(self, seed, max_delay=40, slow=None, partitions=(), policy="random"):
        self.rng = random.Random(seed)
        self.max_delay = max_delay
        self.slow = slow or {}
        self.partitions = list(partitions)  # (party a, party b, from tick, to tick)
        self.policy = policy
        self.now = 0
        self.switches = 0
        self.steps = 0
        self.delayed = 0
        self.cut = 0
        self.order = 0  # rolling hash of the schedule

    def note(self, x):
        self.order = (self.order * 1000003 + x + 7) & 0xFFFFFFFFFFFF

    def delay(self, src, dst):
        d = self.rng.randrange(0, self.max_delay + 1) if self.max_delay else 0
        d *= self.slow.get(src, 1) * self.slow.get(dst, 1)
        if d:
            self.delayed += 1
        at = self.now + d
        for a, b, t0, t1 in self.partitions:
            if {a, b} == {src, dst} and t0 <= at < t1:
                at = t1 + self.rng.randrange(0, 5)
                self.cut += 1
        return at


def full(device):
    if not device:
        return boot.dev(0)
    if device.startswith("/job"):
        return device
    if "CPU:" in device.upper():
        return boot.dev(int(device.upper().split("CPU:")[1]))
    return boot.dev(0)


def run_graph(sim, fg, args):
    sch = sim.scheduler
    nodes, _ = plan(fg)
    # only what the outputs and the side effects need, as TensorFlow prunes
    need = set()
    stack = []
    _, index = plan(fg)
    for t in fg.outputs:
        stack.append(index[t.op.name])
    for op in list(fg.control_outputs):
        stack.append(index[op.name])
    for n in nodes:
        if n.op.op_def is not None and n.op.op_def.is_stateful and n.type != "Placeholder":
            stack.append(n.idx)
    while stack:
        i = stack.pop()
        if i in need:
            continue
        need.add(i)
        stack.extend(j for j, _ in nodes[i].inputs)
        stack.extend(nodes[i].controls)
    values = {}
    given = {}
    for t, a in zip(fg.inputs, args):
        given[index[t.op.name]] = a
    waiting = {}
    users = {}
    for i in need:
        n = nodes[i]
        deps = {j for j, _ in n.inputs} | set(n.controls)
        waiting[i] = set(deps)
        for j in deps:
            users.setdefault(j, []).append(i)
    ready = {}  # party -> list of node ids
    inflight = []  # heap of (arrival, seq, src node, dst node)
    seq = 0

    def party(i):
        n = nodes[i]
        if i in given:
            return "input"
        return full(n.dev)

    def release(i):
        ready.setdefault(party(i), []).append(i)

    for i in sorted(need):
        if not waiting[i]:
            release(i)
    left = len(need)
    last = None
    ctx = context.context()
    gate = getattr(sim, "gate", None)
    while left:
        while inflight and inflight[0][0] <= sch.now:
            _, _, j, i = heapq.heappop(inflight)
            waiting[i].discard(j)
            if not waiting[i]:
                release(i)
        held = ()
        if gate is not None:
            queues = [i for p in ready for i in ready[p] if nodes[i].type in gate.ops]
            if queues:
                gate.maybe_yield(sch.rng)
                held = {i for i in queues if gate.blocked(nodes[i], values)}
        runnable = ready
        if held:
            runnable = {p: [i for i in ready[p] if i not in held] for p in ready}
        parties = sorted(p for p in runnable if runnable[p])
        if not parties:
            if held and not inflight:
                gate.wait([(nodes[i], values) for i in sorted(held)])
                continue
            if not inflight:
                raise Deadlock("no runnable node but %d left" % left)
            sch.now = max(sch.now, inflight[0][0])
            continue
        if sch.policy == "fifo":
            p = parties[0]
            i = runnable[p][0]
        else:
            if sch.policy == "sticky" and last in parties and sch.rng.random() < 0.8:
                p = last
            else:
                w = [1.0 / sch.slow.get(q, 1) for q in parties]
                p = sch.rng.choices(parties, w)[0]
            i = runnable[p][sch.rng.randrange(len(runnable[p]))]
        ready[p].remove(i)
        if p != last:
            sch.switches += 1
        last = p
        sch.steps += 1
        sch.now += 1
        sch.note(i)
        n = nodes[i]
        if i in given:
            values[i] = [given[i]]
        elif n.const is not None:
            with tf.device(n.dev or boot.dev(0)):
                values[i] = [tf.constant(n.const, dtype=n.op.outputs[0].dtype)]
        elif n.type == "NoOp":
            values[i] = []
        else:
            ins = [values[j][k] for j, k in n.inputs]
            sim.before_node(n, p)
            values[i] = execute_node(ctx, n, ins)
            if gate is not None and n.type in gate.ops:
                gate.did(n, ins, values[i])
        left -= 1
        for u in users.get(i, ()):
            q = party(u)
            if q != p and p != "input" and q != "input":
                seq += 1
                heapq.heappush(inflight, (sch.delay(p, q), seq, i, u))
            else:
                waiting[u].discard(i)
                if not waiting[u]:
                    release(u)
    if sim.graph_runs is not None:
        sim.graph_runs.append((fg, index, values))
    # everything still travelling concerns nobody
    out = [values[index[t.op.name]][t.value_index] for t in fg.outputs]
    return out


def execute_node(ctx, n, ins):
    with tf.device(n.dev or boot.dev(0)):
        outs = execute.quick_execute(
            n.type.encode(), n.n_out, inputs=_group(n, ins), attrs=n.attrs, ctx=ctx, name=None
        )
        cbs = ctx.op_callbacks
        if cbs:
            for cb in cbs:
                cb(n.type, tuple(ins), n.attrs, tuple(outs), op_name=None, graph=None)
    return list(outs)


def _group(n, ins):
    return ins


def _call_flat(self, tensor_inputs, captured_inputs):
    sim = boot.CURRENT
    if sim is None or getattr(sim, "scheduler", None) is None or sim.suspended:
        return _ORIG(self, tensor_inputs, captured_inputs)
    if not context.executing_eagerly():
        return _ORIG(self, tensor_inputs, captured_inputs)
    args = list(tensor_inputs) + list(captured_inputs)
    args = [a.handle if hasattr(a, "handle") and isinstance(a, tf.Variable) else a for a in args]
    sim.count_step()
    outs = run_graph(sim, self._func_graph, args)
    ft = self.function_type
    return ft.pack_output(outs)


_cf.ConcreteFunction._call_flat = _call_flat
