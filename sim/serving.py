"""Queues of shares and models served through them: producers, consumers, clients and the
serving loop as actors of one simulated deployment.

An actor is a thread that runs only while it holds the baton.  It gives the baton away
before every operation on a queue, whether it calls the operation itself or a traced
function does (sim/graph.py runs those node by node, with message delays), and while the
operation would block.  The seed decides who runs next.
"""
import hashlib
import random
import threading

from tensorflow.python.ops import gen_data_flow_ops as _gq

from . import boot
from . import graph
from .boot import np, tf, tfe
from .progs import gen_sched, mk_sched

QUEUE_OPS = ("QueueEnqueueV2", "QueueDequeueV2")


class Killed(BaseException):
    """The process of this actor is gone."""


class Stuck(Exception):
    pass


class Actor:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.baton = threading.Semaphore(0)
        self.cond = None
        self.doing = "starting"
        self.done = False
        self.kill = False
        self.error = None
        self.crash_at = None  # dies when it is about to do its n-th queue operation
        self.queue_ops = 0
        self.pending = None  # (list, item): the item is appended when its first half is put or taken
        self.weight = 1.0


class Stage:
    def __init__(self, rng, sim):
        self.rng = rng
        self.sim = sim
        self.actors = []
        self.back = threading.Semaphore(0)
        self.current = None
        self.switches = 0
        self.blocked = 0
        self.crashed = 0
        self.order = 0

    def spawn(self, name, fn):
        a = Actor(name, fn)
        self.actors.append(a)

        def body():
            a.baton.acquire()
            try:
                if not a.kill:
                    fn(a)
            except Killed:
                pass
            except BaseException as e:  # noqa: B902
                a.error = e
            finally:
                a.done = True
                self.back.release()

        a.thread = threading.Thread(target=body, daemon=True)
        a.thread.start()
        return a

    def give(self, a):
        self.current = a
        a.baton.release()
        self.back.acquire()
        self.current = None

    def run(self, limit=60000):
        last = None
        turns = 0
        try:
            while True:
                live = [a for a in self.actors if not a.done]
                if not live:
                    return
                ready = [a for a in live if a.cond is None or a.cond()]
                if not ready:
                    raise Stuck("; ".join("%s is %s" % (a.name, a.doing) for a in live))
                turns += 1
                if turns > limit:
                    raise Stuck("no end after %d turns" % turns)
                a = self.rng.choices(ready, [x.weight for x in ready])[0]
                if a is not last:
                    self.switches += 1
                last = a
                self.order = (self.order * 1000003 + self.actors.index(a) + 11) & 0xFFFFFFFFFFFF
                a.cond = None
                self.give(a)
                if a.error is not None:
                    raise a.error
        finally:
            for a in self.actors:
                if not a.done:
                    a.kill = True
                    self.give(a)
            for a in self.actors:
                a.thread.join(10)

    def pause(self, doing, cond=None):
        """The running actor lets others run, and goes on when `cond` holds."""
        a = self.current
        a.doing = doing
        a.cond = cond
        if cond is not None and not cond():
            self.blocked += 1
        self.back.release()
        a.baton.acquire()
        if a.kill:
            raise Killed()

    def before_queue_op(self):
        a = self.current
        if a is None:
            return
        if a.crash_at is not None and a.queue_ops >= a.crash_at:
            self.crashed += 1
            self.sim.count("client_crashed")
            raise Killed()
        a.queue_ops += 1


class Book:
    """What was done to every raw queue, as recorded at the operation itself."""

    def __init__(self, stage, prefix):
        self.stage = stage
        self.prefix = prefix
        self.capacity = {}
        self.log = {}  # queue -> [(kind, actor, raw value)]
        self.handles = {}
        self.anon = {}

    def key(self, handle):
        s = repr(handle)
        i = s.index('name="') + 6
        name = s[i:s.index('"', i)]
        j = s.index('device="') + 8
        return name, s[j:s.index('"', j)]

    def size(self, handle):
        with tf.device(self.key(handle)[1]):
            return int(ORIG["queue_size_v2"](handle).numpy())

    def blocked(self, kind, handle):
        n = self.size(handle)
        if kind.startswith("QueueEnqueue"):
            return n >= self.capacity[self.key(handle)]
        return n == 0

    def note(self, kind, handle, value):
        k = self.key(handle)
        a = self.stage.current
        self.log.setdefault(k, []).append((kind, a.name if a else "main", np.array(value.numpy())))
        if a is not None and a.pending is not None:
            a.pending[0].append(a.pending[1])
            a.pending = None

    def entered(self, k):
        return [(a, v) for kind, a, v in self.log.get(k, []) if kind.startswith("QueueEnqueue")]

    def left(self, k):
        return [(a, v) for kind, a, v in self.log.get(k, []) if kind.startswith("QueueDequeue")]

    def destroy(self):
        for h in self.handles.values():
            try:
                with tf.device(self.key(h)[1]):
                    tf.raw_ops.DestroyResourceOp(resource=h)
            except Exception:
                pass


BOOK = None  # the Book of the run in progress
ORIG = {n: getattr(_gq, n) for n in ("fifo_queue_v2", "queue_enqueue_v2", "queue_dequeue_v2", "queue_size_v2")}


def _fifo_queue(component_types, shapes=[], capacity=-1, container="", shared_name="", name=None):  # noqa: B006
    b = BOOK
    if b is None or not tf.executing_eagerly():
        return ORIG["fifo_queue_v2"](component_types, shapes=shapes, capacity=capacity, container=container, shared_name=shared_name, name=name)
    if not shared_name:
        # unnamed, TensorFlow's kernel for these arguments on this device decides: one resource
        shared_name = "anon-%s-%s-%s" % (list(component_types), [str(s) for s in shapes], capacity)
    h = ORIG["fifo_queue_v2"](component_types, shapes=shapes, capacity=capacity, container=container,
                              shared_name="%s/%s" % (b.prefix, shared_name), name=name)
    b.capacity[b.key(h)] = capacity
    b.handles[b.key(h)] = h
    return h


def _enqueue(handle, components, timeout_ms=-1, name=None):
    b = BOOK
    if b is None or not tf.executing_eagerly() or b.stage.current is None:
        return ORIG["queue_enqueue_v2"](handle, components, timeout_ms=timeout_ms, name=name)
    st = b.stage
    st.before_queue_op()
    st.pause("putting into %s" % b.key(handle)[0], lambda: not b.blocked("QueueEnqueueV2", handle))
    r = ORIG["queue_enqueue_v2"](handle, components, timeout_ms=timeout_ms, name=name)
    b.note("QueueEnqueueV2", handle, tf.convert_to_tensor(components[0]))
    return r


def _dequeue(handle, component_types, timeout_ms=-1, name=None):
    b = BOOK
    if b is None or not tf.executing_eagerly() or b.stage.current is None:
        return ORIG["queue_dequeue_v2"](handle, component_types, timeout_ms=timeout_ms, name=name)
    st = b.stage
    st.before_queue_op()
    st.pause("taking from %s" % b.key(handle)[0], lambda: not b.blocked("QueueDequeueV2", handle))
    r = ORIG["queue_dequeue_v2"](handle, component_types, timeout_ms=timeout_ms, name=name)
    b.note("QueueDequeueV2", handle, r[0])
    return r


_gq.fifo_queue_v2 = _fifo_queue
_gq.queue_enqueue_v2 = _enqueue
_gq.queue_dequeue_v2 = _dequeue


class Gate:
    """The graph executor's view of the queues."""

    ops = QUEUE_OPS

    def __init__(self, stage, book):
        self.stage = stage
        self.book = book

    def blocked(self, n, values):
        j, k = n.inputs[0]
        return self.book.blocked(n.type, values[j][k])

    def maybe_yield(self, rng):
        if self.stage.current is not None and rng.random() < 0.5:
            self.stage.pause("running a step")

    def wait(self, blocked):
        if self.stage.current is None:
            raise graph.Deadlock("every runnable node waits for a queue")
        self.stage.pause("waiting inside a step", lambda: any(not self.blocked(n, v) for n, v in blocked))

    def did(self, n, ins, outs):
        if n.type == "QueueEnqueueV2":
            self.book.note(n.type, ins[0], ins[1])
        else:
            self.book.note(n.type, ins[0], outs[0])


# -- programs ----------------------------------------------------------------------


def gen_serving(seed):
    rng = random.Random(seed)
    prot = rng.choice(["pond", "pond", "pond-ni", "securenn", "securenn-ni"])
    s = {"prot": prot, "seed": rng.getrandbits(32), "kind": rng.choice(["queue", "serve", "serve"]), "entropy": "uniform"}
    s["sched"] = gen_sched(rng)
    s["loose"] = rng.random() < 0.08
    if s["kind"] == "queue":
        shape = rng.choice([[1], [2], [3], [2, 2], [1, 3], [2, 1, 2], []])
        if not shape and rng.random() < 0.5:
            shape = [4]
        nq = rng.choice([1, 1, 2, 3])
        s["queues"] = []
        for q in range(nq):
            sh = shape if rng.random() < 0.7 else rng.choice([[1], [2], [2, 2]])
            s["queues"].append({"cap": rng.choice([1, 1, 2, 3, 5]) if q == 0 or rng.random() < 0.5 else s["queues"][0]["cap"], "shape": sh,
                                "name": rng.choice(["q%d" % q if s["loose"] else None, "q%d" % q, "q%d" % q])})
        s["producers"], s["consumers"] = [], []
        for q in range(nq):
            n = rng.randrange(1, 7)
            for k in split(rng, n, rng.randrange(1, 4)):
                s["producers"].append({"q": q, "n": k, "how": rng.choice(["eager", "eager", "traced", "computed"]), "w": rng.choice([0.1, 1, 1, 5])})
            take = n if rng.random() < 0.8 else rng.randrange(max(0, n - s["queues"][q]["cap"]), n + 1)
            for k in split(rng, take, rng.randrange(1, 3)):
                s["consumers"].append({"q": q, "n": k, "how": rng.choice(["eager", "eager", "traced", "used"]), "w": rng.choice([0.1, 1, 1, 5])})
        s["again"] = rng.random() < 0.3  # every actor opens the named queues itself
    else:
        model = rng.choice(["affine", "matmul", "square", "dense", "dense2", "pick"])
        n_in = rng.randrange(1, 5)
        batch = rng.choice([1, 1, 2, 3])
        s["model"] = {"t": model, "in": n_in, "hid": rng.randrange(1, 4), "out": rng.randrange(1, 4), "batch": batch, "seed": rng.getrandbits(32), "pub": rng.random() < 0.3}
        s["in_cap"], s["out_cap"] = rng.choice([1, 2, 3, 10]), rng.choice([1, 2, 3, 10])
        s["defaults"] = rng.random() < 0.25
        if s["defaults"]:
            s["in_cap"] = s["out_cap"] = 10
        room = s["in_cap"] + s["out_cap"]
        nc = rng.choice([1, 1, 2, 3, 4])
        s["clients"] = []
        for c in range(nc):
            turns = []
            for _ in range(rng.randrange(1, 4)):
                k = rng.choice([1, 1, 1, 2, 3])
                turns.append(max(1, min(k, room // nc)))
            s["clients"].append({"turns": turns, "run": rng.random() < 0.5, "w": rng.choice([0.1, 1, 1, 5])})
        total = sum(sum(c["turns"]) for c in s["clients"])
        s["serve"] = split(rng, total, rng.choice([1, 1, 2, 3]))  # the server is restarted between these
        s["step_fn"] = rng.random() < 0.7
        s["extra"] = 0
        if rng.random() < 0.15 and not s["loose"]:
            s["extra"] = rng.randrange(1, s["in_cap"] + 1)  # requests beyond what is served
        if nc > 1 and rng.random() < 0.2:
            # a client dies between two requests; somebody else collects its answers
            s["leaver"] = rng.randrange(nc)
        s["server_w"] = rng.choice([0.1, 1, 5])
    if s["loose"] and rng.random() < 0.3:
        s["half"] = rng.randrange(1, 6)
    return s


def split(rng, n, k):
    k = max(1, min(k, n)) if n else 1
    cuts = sorted(rng.sample(range(1, n), k - 1)) if k > 1 else []
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


COUNT = [0]


class V(Exception):
    def __init__(self, sig, text):
        Exception.__init__(self, text)
        self.sig = sig


def decide_serving(spec):
    global BOOK
    sim = boot.Sim(spec["seed"], entropy_mode=spec["entropy"])
    out = {"cov": [], "faults": {}, "probes": {}, "ops": 0, "nontrivial": None}
    probes = out["probes"]
    rng = random.Random(spec["seed"] ^ 0x5EED)
    stage = Stage(rng, sim)
    COUNT[0] += 1
    book = Book(stage, "run%d" % COUNT[0])
    BOOK = book
    try:
        with sim:
            with sim.pause():
                cfg, prot = boot.fresh(spec["prot"])
                probes["act_" + spec["kind"]] = 1
                sim.scheduler = mk_sched(spec["sched"])
                sim.gate = Gate(stage, book)
                sim.suspended -= 1
                try:
                    (run_queue if spec["kind"] == "queue" else run_serve)(spec, sim, stage, book, prot, out)
                finally:
                    sim.suspended += 1
                    sim.scheduler = None
                    sim.gate = None
    except V as e:
        out["violation"], out["sig"] = str(e), e.sig
    except (Stuck, graph.Deadlock) as e:
        if not mispaired(spec, book, out) and spec.get("half") is None:
            out["violation"], out["sig"] = "not everything was served although nothing failed: %s" % e, "stuck"
    except AssertionError as e:
        import traceback

        out["violation"], out["sig"] = "AssertionError %s %s" % (e, traceback.format_exc()[-600:]), "failed:AssertionError"
    except Exception as e:
        import traceback

        out["violation"], out["sig"] = "%s: %s" % (type(e).__name__, str(e)[:400]), "failed:" + type(e).__name__
        out["tb"] = traceback.format_exc()[-1500:]
    finally:
        book.destroy()
        BOOK = None
    out["ops"] = sum(len(v) for v in book.log.values())
    out["faults"] = dict(sim.injected)
    if stage.blocked:
        probes["waited_for_a_queue"] = 1
    sch = spec["sched"]
    if sch.get("slow"):
        out["faults"]["slow_party"] = out["faults"].get("slow_party", 0) + 1
    if sch.get("partitions"):
        out["faults"]["partition"] = out["faults"].get("partition", 0) + 1
    if sch["max_delay"]:
        out["faults"]["message_delay"] = out["faults"].get("message_delay", 0) + 1
    out["nontrivial"] = any(book.log.values())
    out["sched"] = "%x" % stage.order
    out["cov"] = ["%s %s actors%d waits%d switches%d" % (spec["kind"], spec["prot"], len(stage.actors), min(stage.blocked, 9), min(stage.switches // 5, 20))]
    if spec["kind"] == "serve":
        out["cov"].append("%s %s clients%d restarts%d" % (spec["model"]["t"], spec["prot"], len(spec["clients"]), len(spec["serve"])))
    h = hashlib.sha256(repr((stage.order, out.get("violation"))).encode())
    for k in sorted(book.log):
        for kind, who, v in book.log[k]:
            h.update(("%s|%s|%s" % (k[0].split("/", 1)[-1] if "q" in k[0] else "", kind, who)).encode())
            h.update(v.tobytes())
    out["trace"] = h.hexdigest()[:24]
    out["messages"] = sim.messages
    out["ticks"] = stage.switches
    return out


def mispaired(spec, book, out):
    """Did clients interleave their operations on the two halves of a queue, as `loose` runs let them?"""
    if not spec["loose"]:
        return False
    halves = {}
    for k in book.log:
        base, _, half = k[0].rpartition("-")
        halves.setdefault(base, {})[half] = k
    for base, h in sorted(halves.items()):
        if len(h) == 2:
            for f in (book.entered, book.left):
                o = [[a for a, _ in f(h[x])] for x in sorted(h)]
                if o[0] != o[1]:
                    out["known"] = ["mispaired:interleaved"]
                    out["probes"]["interleaved"] = 1
                    return True
    return False


class Lock:
    """Held around one operation on a queue of shares by one client (unless the run is loose)."""

    def __init__(self, stage, on):
        self.stage, self.on = stage, on
        self.owner = None

    def __enter__(self):
        if self.on:
            if self.owner is not None:
                self.stage.pause("waiting for its turn", lambda: self.owner is None)
            self.owner = self.stage.current
        return self

    def __exit__(self, *a):
        self.owner = None


def value_for(rng, ulp, shape, k):
    """Distinct from the k-th value of any other k by far more than any rounding."""
    v = np.array([rng.randrange(-400, 401) for _ in range(int(np.prod(shape)))], dtype=np.float64).reshape(shape) / 8
    return np.where(np.arange(v.size).reshape(shape) == 0, (k + 1) * 0.75 * (-1) ** k, v) if v.size else v


def encode_ulp(prot):
    return 1.0 / prot.fixedpoint_config.scaling_factor


def where_is(spec, sim, book):
    """Each half stays on its own server."""
    return {d for _, d in book.log}


def run_queue(spec, sim, stage, book, prot, out):
    rng = random.Random(spec["seed"] ^ 0xABC)
    ulp = encode_ulp(prot)

    def open_queue(q):
        d = spec["queues"][q]
        return tfe.queue.FIFOQueue(capacity=d["cap"], shape=list(d["shape"]), shared_name=d["name"])

    queues = [open_queue(q) for q in range(len(spec["queues"]))]
    put_lock = [Lock(stage, not spec["loose"]) for _ in queues]
    get_lock = [Lock(stage, not spec["loose"]) for _ in queues]
    put = [[] for _ in queues]
    got = [[] for _ in queues]
    counter = [0]

    def mine(q):
        return open_queue(q) if spec["again"] and spec["queues"][q]["name"] is not None else queues[q]

    def producer(d):
        def go(me):
            q = mine(d["q"])
            shape = list(spec["queues"][d["q"]]["shape"])
            step = None
            if d["how"] == "traced":

                @tf.function
                def step(v):
                    q.enqueue(tfe.define_private_tensor(v) if hasattr(tfe, "define_private_tensor") else prot.define_private_input("server0", lambda: v))

            for _ in range(d["n"]):
                counter[0] += 1
                v = value_for(rng, ulp, shape, counter[0])
                if d["how"] == "computed":
                    x = tfe.define_private_variable(v) + tfe.define_constant(np.ones(shape))
                    v = v + 1
                elif d["how"] == "eager":
                    x = tfe.define_private_variable(v)
                with put_lock[d["q"]]:
                    me.pending = (put[d["q"]], v)
                    if step is not None:
                        step(tf.constant(v))
                    else:
                        q.enqueue(x)
                n = int(q.size().numpy())
                if not 0 <= n <= spec["queues"][d["q"]]["cap"]:
                    raise V("capacity", "a queue for %d holds %d" % (spec["queues"][d["q"]]["cap"], n))
        return go

    def consumer(d):
        def go(me):
            q = mine(d["q"])
            step = None
            if d["how"] == "traced":

                @tf.function
                def step():
                    return (q.dequeue() + 2).reveal().to_native()

            for _ in range(d["n"]):
                with get_lock[d["q"]]:
                    box = [None]
                    me.pending = (got[d["q"]], box)
                    if step is not None:
                        y = step().numpy() - 2
                    else:
                        x = q.dequeue()
                        if d["how"] == "used":
                            y = (x - tfe.define_constant(np.ones(x.shape.as_list()))).reveal().to_native().numpy() + 1
                        else:
                            y = x.reveal().to_native().numpy()
                    box[0] = y
        return go

    for i, d in enumerate(spec["producers"]):
        a = stage.spawn("producer %d" % i, producer(d))
        a.weight = d["w"]
        if spec.get("half") is not None and i == 0:
            a.crash_at = spec["half"]
    for i, d in enumerate(spec["consumers"]):
        stage.spawn("consumer %d" % i, consumer(d)).weight = d["w"]
    stage.run()
    if mispaired(spec, book, out) or spec.get("half") is not None:
        return
    for q in range(len(queues)):
        taken = [b[0] for b in got[q]]
        want = put[q][:len(taken)]
        total = sum(d["n"] for d in spec["consumers"] if d["q"] == q)
        if len(taken) != total:
            raise V("lost", "%d values were to be taken from queue %d, %d were" % (total, q, len(taken)))
        for k, (y, v) in enumerate(zip(taken, want)):
            if tuple(y.shape) != tuple(np.shape(v)):
                raise V("order", "value %d taken from queue %d has shape %s, not %s" % (k, q, y.shape, np.shape(v)))
            if not np.allclose(y, v, rtol=0, atol=3 * ulp):
                raise V("order", "value %d taken from queue %d of %d producers is %s, put in was %s" % (
                    k, q, sum(d["q"] == q for d in spec["producers"]), np.asarray(y).tolist(), np.asarray(v).tolist()))
        left = int(queues[q].size().numpy())
        n_in = len(put[q])
        if left != n_in - len(taken):
            raise V("size", "%d values went into queue %d and %d came out, but its size is %d" % (n_in, q, len(taken), left))
    halves(spec, sim, book)
    out["probes"]["taken"] = sum(len(g) for g in got)


def halves(spec, sim, book):
    """No server sees both halves of a queued value."""
    by = {}
    for (name, device) in book.log:
        base, _, half = name.rpartition("-")
        by.setdefault(base, {}).setdefault(device, set()).add(half)
    for base, d in by.items():
        if len(d) < 2 and any(book.log.get((base + "-" + h, dv)) for dv, hs in d.items() for h in hs):
            raise V("together", "both halves of the values of a queue are kept on %s" % list(d))


def build_model(spec, prot):
    m = spec["model"]
    rng = np.random.RandomState(m["seed"] & 0x7FFFFFFF)

    def mat(*shape):
        return rng.randint(-8, 9, size=shape) / 4.0

    n_in, hid, n_out, b = m["in"], m["hid"], m["out"], m["batch"]
    const = (lambda v: tfe.define_public_variable(v)) if m["pub"] else (lambda v: tfe.define_private_variable(v))
    t = m["t"]
    ulp = encode_ulp(prot)
    if t == "affine":
        w, c = mat(n_in), mat(n_in)
        tw, tc = const(w), const(c)
        return (lambda x: x * tw + tc), (lambda x: x * w + c), n_in, ulp * 300
    if t == "matmul":
        w = mat(n_in, n_out)
        tw = const(w)
        return (lambda x: tfe.matmul(x, tw)), (lambda x: x @ w), n_out, ulp * 300 * n_in
    if t == "square":
        return (lambda x: x * x * 0.5), (lambda x: x * x * 0.5), n_in, ulp * 400
    if t == "pick":
        return (lambda x: x[:, 0:1]), (lambda x: x[:, 0:1]), 1, ulp * 3
    W1, b1 = mat(n_in, hid), mat(hid)
    layers = [tfe.keras.layers.Dense(hid, batch_input_shape=[b, n_in])]
    weights = [W1, b1]
    ref = lambda x: x @ W1 + b1  # noqa: E731
    n = hid
    if t == "dense2":
        W2 = mat(hid, n_out)
        layers.append(tfe.keras.layers.Dense(n_out, use_bias=False))
        weights.append(W2)
        first = ref
        ref = lambda x: first(x) @ W2  # noqa: E731
        n = n_out
    model = tfe.keras.Sequential(layers)
    model.set_weights(weights)
    return model, ref, n, ulp * 300 * n_in * (1 if t == "dense" else 3 * hid)


def run_serve(spec, sim, stage, book, prot, out):
    m = spec["model"]
    rng = random.Random(spec["seed"] ^ 0xABC)
    fn, ref, n_out, tol = build_model(spec, prot)
    in_shape, out_shape = [m["batch"], m["in"]], [m["batch"], n_out]
    kw = {} if spec["defaults"] else dict(
        input_queue_capacity=spec["in_cap"], output_queue_capacity=spec["out_cap"], input_queue_name="in", output_queue_name="out")
    send_lock, recv_lock = Lock(stage, not spec["loose"]), Lock(stage, not spec["loose"])
    sent, answers = [], []
    steps = [0]
    served = []

    def server(me):
        for n in spec["serve"]:
            srv = tfe.serving.QueueServer(in_shape, out_shape, fn, **kw)
            me.doing = "serving"

            def after():
                steps[0] += 1
                put_in = max([len([1 for k, who, _ in v if k.startswith("QueueEnqueue") and who.startswith("server")]) for v in book.log.values()] or [0])
                if put_in < steps[0]:
                    raise V("step", "step_fn was called the %d-th time after %d answers" % (steps[0], put_in))

            srv.run(num_steps=n, step_fn=after if spec["step_fn"] else None)
            served.append(n)
            if len(spec["serve"]) > 1:
                sim.count("server_restarted")

    owed = [0]
    made = [0]

    def client(i, d):
        def go(me):
            def make():
                return tfe.serving.QueueClient(in_shape, out_shape, **kw)

            c = make()

            def send():
                made[0] += 1
                v = value_for(rng, None, in_shape, made[0]) / 8
                v = np.clip(v, -6, 6)
                with send_lock:
                    me.pending = (sent, v)
                    c.send_input(v)

            def receive():
                with recv_lock:
                    box = [me.name, None]
                    me.pending = (answers, box)
                    box[1] = c.receive_output().numpy()

            for j, k in enumerate(d["turns"]):
                if k == 1 and d["run"] and nclients == 1:
                    made[0] += 1
                    v = np.clip(value_for(rng, None, in_shape, made[0]) / 8, -6, 6)
                    me.pending = (sent, v)
                    answers.append([me.name, c.run(v).numpy()])
                    continue
                for _ in range(k):
                    send()
                if spec.get("leaver") == i and j == len(d["turns"]) - 1:
                    owed[0] += k
                    sim.count("client_crashed")
                    return
                for _ in range(k):
                    receive()
        return go

    def heir(me):
        # collects what clients that left did not
        c = tfe.serving.QueueClient(in_shape, out_shape, **kw)
        stage.pause("waiting for the clients", lambda: all(a.done for a in clients))
        for _ in range(owed[0]):
            with recv_lock:
                answers.append([me.name, c.receive_output().numpy()])

    def late(me):
        stage.pause("waiting for the server", lambda: srv.done)
        c = tfe.serving.QueueClient(in_shape, out_shape, **kw)
        for _ in range(spec["extra"]):
            c.send_input(np.ones(in_shape))

    nclients = len(spec["clients"])
    clients = []
    srv = stage.spawn("server", server)
    srv.weight = spec["server_w"]
    for i, d in enumerate(spec["clients"]):
        a = stage.spawn("client %d" % i, client(i, d))
        a.weight = d["w"]
        clients.append(a)
        if spec.get("half") is not None and i == 0:
            a.crash_at = spec["half"]
    if spec.get("leaver") is not None:
        stage.spawn("heir", heir)
    if spec["extra"]:
        stage.spawn("late", late)
    stage.run()
    if mispaired(spec, book, out):
        return
    if spec.get("half") is not None:
        return
    total = sum(spec["serve"])
    if served != spec["serve"]:
        raise V("steps", "the server was to do %s steps and did %s" % (spec["serve"], served))
    if spec["step_fn"] and steps[0] != total:
        raise V("steps", "%d steps were served, step_fn was called %d times" % (total, steps[0]))
    if len(answers) != total:
        raise V("lost", "%d requests were served, %d answers were collected" % (total, len(answers)))
    for k in range(total):
        want = ref(sent[k])
        who, y = answers[k]
        if tuple(y.shape) != tuple(want.shape):
            raise V("answer", "answer %d has shape %s, not %s" % (k, y.shape, want.shape))
        if not np.allclose(y, want, rtol=0, atol=tol):
            other = [j for j in range(len(sent)) if np.allclose(y, ref(sent[j]), rtol=0, atol=tol)]
            raise V("answer", "the %d-th answer (to %s) is %s, the model gives %s for the %d-th request%s" % (
                k, who, y.tolist(), want.tolist(), k, ("; it is the answer to request %s" % other) if other else ""))
    # what is left in the queues
    c = tfe.serving.QueueClient(in_shape, out_shape, **kw)
    n_in, n_out_ = int(c.input_queue.size().numpy()), int(c.output_queue.size().numpy())
    if (n_in, n_out_) != (spec["extra"], 0):
        raise V("left", "%d requests and %d answers are left, %d and 0 were expected" % (n_in, n_out_, spec["extra"]))
    halves(spec, sim, book)
    out["probes"]["answered"] = total
    if nclients > 1:
        out["probes"]["several_clients"] = 1


def shrink_serving(spec):
    s = spec
    sch = s["sched"]
    out = [dict(s, sched=dict(sch, max_delay=0, slow={}, partitions=[]))] if sch["max_delay"] or sch.get("slow") or sch.get("partitions") else []
    if s.get("half") is not None:
        out.append({k: v for k, v in s.items() if k != "half"})
    if s["kind"] == "queue":
        used = {d["q"] for d in s["producers"] + s["consumers"]}
        for q in used:
            if len(used) > 1:
                out.append(dict(s, producers=[d for d in s["producers"] if d["q"] != q], consumers=[d for d in s["consumers"] if d["q"] != q]))
        for q in used:
            p = [i for i, d in enumerate(s["producers"]) if d["q"] == q and d["n"]]
            c = [i for i, d in enumerate(s["consumers"]) if d["q"] == q and d["n"]]
            for i in p:
                for j in c:
                    P = [dict(d, n=d["n"] - (k == i)) for k, d in enumerate(s["producers"])]
                    C = [dict(d, n=d["n"] - (k == j)) for k, d in enumerate(s["consumers"])]
                    out.append(dict(s, producers=P, consumers=C))
        for i, d in enumerate(s["producers"]):
            if d["n"] == 0:
                out.append(dict(s, producers=s["producers"][:i] + s["producers"][i + 1:]))
            elif d["how"] != "eager":
                out.append(dict(s, producers=[dict(x, how="eager") if k == i else x for k, x in enumerate(s["producers"])]))
        for i, d in enumerate(s["consumers"]):
            if d["n"] == 0:
                out.append(dict(s, consumers=s["consumers"][:i] + s["consumers"][i + 1:]))
            elif d["how"] != "eager":
                out.append(dict(s, consumers=[dict(x, how="eager") if k == i else x for k, x in enumerate(s["consumers"])]))
    else:
        if s["extra"]:
            out.append(dict(s, extra=0))
        if s.get("leaver") is not None:
            out.append({k: v for k, v in s.items() if k != "leaver"})
        elif len(s["clients"]) > 1:
            for i in range(len(s["clients"])):
                cl = s["clients"][:i] + s["clients"][i + 1:]
                out.append(dict(s, clients=cl, serve=[sum(sum(c["turns"]) for c in cl)]))
        if len(s["serve"]) > 1:
            out.append(dict(s, serve=[sum(s["serve"])]))
        for i, c in enumerate(s["clients"]):
            for j in range(len(c["turns"])):
                if len(c["turns"]) > 1 and s.get("leaver") is None:
                    cl = [dict(x, turns=x["turns"][:j] + x["turns"][j + 1:]) if k == i else x for k, x in enumerate(s["clients"])]
                    out.append(dict(s, clients=cl, serve=[sum(sum(x["turns"]) for x in cl)]))
        if s["model"]["t"] != "pick":
            out.append(dict(s, model=dict(s["model"], t="pick")))
    return out
