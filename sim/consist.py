"""Invariant over every protocol tensor that comes into being: copies and replicated
shares agree, and each lives on the server it belongs to.

The constructors of the protocols' tensor classes are the seam: they are wrapped for the
duration of a run, so that intermediate tensors are seen as well as results.
"""
import numpy as np

from .boot import tf


def classes():
    from tf_encrypted.protocol.aby3 import aby3_tensors as a
    from tf_encrypted.protocol.pond import pond as p

    out = []
    for m, n in ((p, "PondPublicTensor"), (p, "PondPrivateTensor"), (p, "PondMaskedTensor"), (a, "ABY3PublicTensor"), (a, "ABY3PrivateTensor")):
        c = getattr(m, n, None)
        if c is not None:
            out.append((n, c))
    return out


class Recorder:
    def __init__(self):
        self.made = []
        self.refused = []  # the class itself found the parts wrong
        self.saved = []

    def __enter__(self):
        rec = self

        def wrap(c, name):
            init = c.__init__

            def __init__(self, *a, **k):
                try:
                    init(self, *a, **k)
                except AssertionError as e:
                    rec.refused.append((name, str(e)))
                    raise
                rec.made.append((name, self))

            self.saved.append((c, init))
            c.__init__ = __init__

        for n, c in classes():
            wrap(c, n)
        return self

    def __exit__(self, *a):
        for c, init in self.saved:
            c.__init__ = init
        return False

    def take(self):
        m, self.made = self.made, []
        return m


class Inconsistent(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = sig


class Audit(Recorder):
    """Recorder that checks what was recorded."""

    def __init__(self, limit=4000):
        super().__init__()
        self.compared = 0
        self.tensors = 0
        self.unseen = 0
        self.problem = None
        self.limit = limit

    def __enter__(self):
        return super().__enter__()

    def _check(self, where, lookup):
        for name, why in self.refused:
            if self.problem is None:
                self.problem = ("refused-parts:%s" % name, where + ": a legal program made a %s of parts its class refuses: %s" % (name, why[:200]))
        for name, t in self.take():
            if self.tensors > self.limit:
                break
            self.tensors += 1
            w, n = check(name, t, lookup)
            self.compared += n
            if w and self.problem is None:
                self.problem = (w[0], where + ": " + w[1])

    def check_now(self, sim, where):
        with sim.pause():
            self._check(where, None)

    def check_graph(self, sim, where):
        runs = sim.graph_runs or []

        def lookup(x):
            g = getattr(x, "graph", None) if not hasattr(x, "numpy") else None
            if g is None:
                return x
            for fg, index, values in runs:
                if fg is g:
                    i = index.get(x.op.name)
                    v = values.get(i)
                    if v is None or x.value_index >= len(v):
                        self.unseen += 1
                        return None
                    return v[x.value_index]
            self.unseen += 1
            return None

        with sim.pause():
            self._check(where, lookup)


def raws(t):
    """The TensorFlow tensors behind one share or copy; None where there is only a seed."""
    b = getattr(t, "backing", None)
    if isinstance(b, (list, tuple)):
        return list(b)
    v = getattr(t, "value", None)
    return None if v is None else [v]


def seeded(t):
    return hasattr(t, "_seed")


def val(x, lookup):
    if lookup is not None:
        x = lookup(x)
        if x is None:
            return None
    if hasattr(x, "numpy"):
        try:
            return np.asarray(x.numpy())
        except Exception:
            return None
    return None


def values(t, lookup):
    if lookup is not None and seeded(t):
        return None  # expanding it would need new nodes
    r = raws(t)
    if r is None:
        return None
    out = [val(x, lookup) for x in r]
    return None if any(o is None for o in out) else out


def dev_of(t, lookup):
    if seeded(t):
        return None
    r = raws(t)
    if not r:
        return None
    x = r[0]
    if lookup is not None:
        y = lookup(x)
        x = y if y is not None else x
    d = getattr(x, "device", None)
    return d or None


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y) for x, y in zip(a, b))


def servers_of(prot):
    s = getattr(prot, "servers", None)
    if s:
        return list(s)
    return [prot.server_0, prot.server_1]


def whole_ring(t):
    """The type of the tensor's words when they wrap like numpy's."""
    return t.backing_dtype if t.backing_dtype.modulus == 2 ** 64 or t.backing_dtype.modulus == 2 ** 32 else None


def check(name, t, lookup=None):
    """-> (sig, why) or None, and the number of comparisons made."""
    prot = t.prot
    servers = servers_of(prot)
    n = 0

    def place(what, x, i):
        d = dev_of(x, lookup)
        if d is not None and d != servers[i].device_name:
            return ("placement:%s" % name, "%s of server %d of a %s is on %s" % (what, i, name, d))
        return None

    def agree(what, x, y):
        nonlocal n
        a, b = values(x, lookup), values(y, lookup)
        if a is None or b is None:
            return None
        n += 1
        if not same(a, b):
            return ("copies:%s" % name, "%s differ in a %s (shapes %s, %s)" % (what, name, [q.shape for q in a], [q.shape for q in b]))
        return None

    if name.endswith("PublicTensor"):
        cs = list(t.unwrapped)
        for i, c in enumerate(cs):
            w = place("the copy", c, i)
            if w:
                return w, n
        for c in cs[1:]:
            w = agree("the servers' copies", cs[0], c)
            if w:
                return w, n
    elif name == "PondPrivateTensor":
        for i, c in enumerate(t.unwrapped):
            w = place("the share", c, i)
            if w:
                return w, n
    elif name == "PondMaskedTensor":
        a, a0, a1, al0, al1 = t.unwrapped
        w = agree("the servers' copies of the masked value", al0, al1)
        if w:
            return w, n
        a, b0, b1 = (values(q, lookup) for q in (a, a0, a1))
        if a and b0 and b1 and all(len(q) == 1 and q[0].dtype in (np.int64, np.int32) for q in (a, b0, b1)) and t.backing_dtype == whole_ring(t):
            n += 1
            if not (a[0].shape == b0[0].shape == b1[0].shape and np.array_equal(a[0], b0[0] + b1[0])):
                return ("mask:%s" % name, "the servers' shares of the mask of a %s do not add up to the mask" % name), n
            x = [values(q, lookup) for q in t.unmasked.unwrapped]
            al = values(al0, lookup)
            if al and all(x):
                n += 1
                if not (al[0].shape == a[0].shape == x[0][0].shape and np.array_equal(al[0], x[0][0] + x[1][0] - a[0])):
                    return ("mask:%s" % name, "the masked value of a %s is not the value less its mask" % name), n
        for x, i in ((a0, 0), (a1, 1), (al0, 0), (al1, 1)):
            w = place("the part", x, i)
            if w:
                return w, n
    elif name == "ABY3PrivateTensor":
        sh = t.unwrapped
        for i in range(3):
            for j in range(2):
                w = place("a share", sh[i][j], i)
                if w:
                    return w, n
        for i in range(3):
            w = agree("the two copies of share %d" % ((i + 1) % 3), sh[i][1], sh[(i + 1) % 3][0])
            if w:
                return w, n
    return None, n
