"""Encrypted Keras models against the plain models they stand for.

The plain model is computed here in double precision, several times over: once as it is,
and a few times with every value moved by as much as the encrypted computation may round
it.  The spread of these tells how far an encrypted result may be from the plain one; a
result near a point where the plain computation jumps (a tie, a kink) is not judged.
"""
import contextlib
import hashlib
import random

from .boot import np, tf, tfe
from .boot import Sim, fresh
from .ops_aby3 import SIG5, piecewise
from .ops_common import poly_bound, r_poly
from .ops_pond import LOG, SIG, TANH
from .progs import gen_sched, mk_sched, tb

NREF = 5
FACTOR = 8.0


class Bad(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = sig


class Skip(Exception):
    """The plain computation is at a point where rounding decides."""


PROTS = {
    "aby3": {"ulp": 2.0 ** -16, "trunc": 2.0},
    "aby3-128": {"ulp": 2.0 ** -32, "trunc": 2.0},
    "pond": {"ulp": 3.0 ** -8, "trunc": 2.0},
    "pond100": {"ulp": 2.0 ** -16, "trunc": 2.0},
    "securenn": {"ulp": 3.0 ** -8, "trunc": 2.0},
}


class Ref:
    """One computation of the plain model; seed None: without rounding."""

    def __init__(self, prot, seed=None):
        self.c = PROTS[prot]
        self.ulp = self.c["ulp"]
        self.prot = prot
        self.rng = None if seed is None else np.random.Generator(np.random.PCG64(seed))
        self.kinks = []  # values that must not be near zero

    def n(self, a, e):
        a = np.asarray(a, dtype=np.float64)
        if self.rng is None:
            return a
        s = self.rng.choice([-1.0, 1.0])
        return a + e * (0.5 * s + 0.5 * self.rng.uniform(-1, 1, a.shape))

    def enc(self, a):
        return self.n(a, self.ulp)

    def tr(self, a):
        return self.n(a, self.c["trunc"] * self.ulp)

    def scal(self, a, k):
        """a times a public number"""
        if float(k) == 1.0:
            return np.asarray(a, dtype=np.float64)
        return self.tr(np.asarray(a) * self.n(k, self.ulp))

    def kink(self, z):
        self.kinks.append(np.ravel(np.asarray(z, dtype=np.float64)))

    # functions ---------------------------------------------------------------
    def sigmoid(self, z):
        if self.prot.startswith("aby3"):
            for c in SIG5[0]:
                self.kink(z - c)
            return self.n(piecewise(z, SIG5[0], SIG5[1], 1.0 / self.ulp), (3 + self.c["trunc"] + np.abs(z)) * self.ulp + 3e-7 * (1 + np.abs(z)))
        return self.n(r_poly(z, SIG, 1.0 / self.ulp), poly_bound(z, SIG, self.ulp) / 3)

    def tanh(self, z):
        return self.n(r_poly(z, TANH, 1.0 / self.ulp), poly_bound(z, TANH, self.ulp) / 3)

    def log(self, z):
        return self.n(r_poly(z, LOG, 1.0 / self.ulp), poly_bound(z, LOG, self.ulp) / 2)

    def softmax(self, z):
        e = np.exp(z - z.max(-1, keepdims=True))
        return self.n(e / e.sum(-1, keepdims=True), 1e-3)

    def act(self, name, z):
        if name in (None, "linear"):
            return z
        if name == "relu":
            self.kink(z)
            return np.maximum(z, 0)
        return getattr(self, name)(z)

    def act_deriv(self, name, y, dy):
        if name in (None, "linear"):
            return dy
        if name == "relu":
            return np.where(y > 0, dy, 0.0)
        if name == "sigmoid":
            return self.tr(self.tr(dy * y) * (1 - y))
        raise AssertionError(name)


# -- shapes and windows ---------------------------------------------------------


def nhwc(x, df):
    return x.transpose(0, 2, 3, 1) if df == "channels_first" else x


def back(x, df):
    return x.transpose(0, 3, 1, 2) if df == "channels_first" else x


def geom(size, k, s, padding):
    if padding == "same":
        out = -(-size // s)
        total = max((out - 1) * s + k - size, 0)
        return out, total // 2
    return (size - k) // s + 1, 0


def windows(x, k, s, padding):
    """-> values [n, oh, ow, kh*kw, c], index [oh, ow, kh*kw] into the flat image (-1: padding)"""
    n, h, w, c = x.shape
    oh, pt = geom(h, k[0], s[0], padding)
    ow, pl = geom(w, k[1], s[1], padding)
    i = (np.arange(oh)[:, None] * s[0] - pt + np.arange(k[0])[None, :])  # oh, kh
    j = (np.arange(ow)[:, None] * s[1] - pl + np.arange(k[1])[None, :])
    ok = ((i >= 0) & (i < h))[:, None, :, None] & ((j >= 0) & (j < w))[None, :, None, :]
    idx = np.where(ok, i[:, None, :, None] * w + j[None, :, None, :], -1).reshape(oh, ow, k[0] * k[1])
    flat = np.concatenate([x.reshape(n, h * w, c), np.zeros((n, 1, c))], axis=1)
    return flat[:, idx], idx


def scatter(dv, idx, shape):
    """dv [n, oh, ow, k, c] back onto the image"""
    n, h, w, c = shape
    out = np.zeros((n, h * w + 1, c))
    flat = idx.reshape(-1)
    np.add.at(out, (slice(None), flat), dv.reshape(n, flat.size, c))
    return out[:, :-1].reshape(shape)


# -- layers: what they mean --------------------------------------------------------


def full_kernel(spec, k):
    """The kernel of a depthwise convolution as that of an ordinary one."""
    kh, kw, cin, m = k.shape
    out = np.zeros((kh, kw, cin, cin * m))
    for i in range(cin):
        for d in range(m):
            out[:, :, i, i * m + d] = k[:, :, i, d]
    return out


def forward(r, s, W, x):
    t = s["t"]
    df = s.get("df")
    if t == "Dense":
        z = r.tr(x @ W[0])
        if s["bias"]:
            z = z + W[1]
        y = r.act(s["act"], z)
        return y, (x, y)
    if t in ("Conv2D", "DepthwiseConv2D"):
        xi = nhwc(x, df)
        k = W[0] if t == "Conv2D" else full_kernel(s, W[0])
        v, idx = windows(xi, (s["k"], s["k"]), s["s"], s["pad"])
        z = r.tr(np.einsum("nhwkc,kcf->nhwf", v, k.reshape(-1, k.shape[2], k.shape[3])))
        if s["bias"]:
            z = z + W[1]
        y = back(r.act(s["act"], z), df)
        return y, (xi, v, idx, k, y)
    if t == "AveragePooling2D":
        xi = nhwc(x, df)
        v, idx = windows(xi, s["k"], s["s"], s["pad"])
        y = r.scal(v.sum(axis=3), 1.0 / (s["k"][0] * s["k"][1]))
        return back(y, df), (xi, idx)
    if t == "MaxPooling2D":
        xi = nhwc(x, df)
        v, idx = windows(xi, s["k"], s["s"], s["pad"])
        vm = np.where(idx[None, :, :, :, None] < 0, -np.inf, v)
        if vm.shape[3] > 1:
            so = np.sort(vm, axis=3)
            gap = so[:, :, :, -1] - so[:, :, :, -2]
            r.kink(np.where(np.isfinite(gap), gap, 1e6))
        a = vm.argmax(axis=3)
        y = np.take_along_axis(vm, a[:, :, :, None], axis=3)[:, :, :, 0]
        hot = np.arange(vm.shape[3])[None, None, None, :, None] == a[:, :, :, None]
        return back(y, df), (xi, idx, hot)
    if t == "GlobalAveragePooling2D":
        xi = nhwc(x, df)
        y = r.scal(xi.sum(axis=(1, 2), keepdims=True), 1.0 / (xi.shape[1] * xi.shape[2]))
        return (back(y, df) if s["keep"] else y[:, 0, 0]), (xi,)
    if t == "GlobalMaxPooling2D":
        xi = nhwc(x, df)
        f = xi.reshape(xi.shape[0], -1, xi.shape[3])
        if f.shape[1] > 1:
            so = np.sort(f, axis=1)
            r.kink(so[:, -1] - so[:, -2])
        a = f.argmax(axis=1)
        y = f.max(axis=1)
        hot = np.arange(f.shape[1])[None, :, None] == a[:, None, :]
        return (back(y[:, None, None, :], df) if s["keep"] else y), (xi, hot)
    if t == "Flatten":
        xi = x
        if df == "channels_first" and x.ndim > 1:
            xi = np.moveaxis(x, 1, -1)
        return xi.reshape(x.shape[0], -1), (x.shape, xi.shape)
    if t == "Reshape":
        return x.reshape([x.shape[0]] + list(s["shape"])), (x.shape,)
    if t == "Activation":
        y = r.act(s["act"], x)
        return y, (y,)
    if t == "ReLU":
        r.kink(x)
        return np.maximum(x, 0), (x,)
    if t == "BatchNormalization":
        W = list(W)
        shape = [1] * x.ndim
        shape[s["axis"]] = -1
        gamma = W.pop(0).reshape(shape) if s["scale"] else None
        beta = W.pop(0).reshape(shape) if s["center"] else None
        mean, var = W[0].reshape(shape), W[1].reshape(shape)
        den = r.n(1 / r.n(np.sqrt(r.n(var + s["eps"], 2 * r.ulp)), 2 * r.ulp), 2 * r.ulp)
        y = x - mean
        if gamma is not None:
            y = r.tr(gamma * y)
        y = r.tr(y * den)
        if beta is not None:
            y = y + beta
        return y, None
    raise KeyError(t)


def backward(r, s, W, cache, dy):
    """-> gradients of the weights, gradient of the input"""
    t = s["t"]
    df = s.get("df")

    def lazy(g, n):
        return r.scal(g, 1.0 / n) if s.get("lazy") else g

    if t == "Dense":
        x, y = cache
        dz = r.act_deriv(s["act"], y, dy)
        g = [lazy(r.tr(x.T @ dz), x.shape[0])]
        if s["bias"]:
            g.append(lazy(dz.sum(axis=0), x.shape[0]))
        return g, r.tr(dz @ W[0].T)
    if t == "Conv2D":
        xi, v, idx, k, y = cache
        dz = nhwc(r.act_deriv(s["act"], y, dy), df)
        dk = r.tr(np.einsum("nhwkc,nhwf->kcf", v, dz)).reshape(k.shape)
        g = [lazy(dk, xi.shape[0])]
        if s["bias"]:
            g.append(lazy(dz.sum(axis=(0, 1, 2)), xi.shape[0]))
        dv = np.einsum("nhwf,kcf->nhwkc", dz, k.reshape(-1, k.shape[2], k.shape[3]))
        return g, back(r.tr(scatter(dv, idx, xi.shape)), df)
    if t == "AveragePooling2D":
        xi, idx = cache
        d = r.scal(nhwc(dy, df), 1.0 / (s["k"][0] * s["k"][1]))
        return [], back(scatter(np.repeat(d[:, :, :, None], idx.shape[2], axis=3), idx, xi.shape), df)
    if t == "MaxPooling2D":
        xi, idx, hot = cache
        return [], back(scatter(nhwc(dy, df)[:, :, :, None] * hot, idx, xi.shape), df)
    if t == "GlobalAveragePooling2D":
        (xi,) = cache
        d = nhwc(dy, df) if s["keep"] else dy[:, None, None, :]
        return [], back(np.broadcast_to(r.scal(d, 1.0 / (xi.shape[1] * xi.shape[2])), xi.shape), df)
    if t == "GlobalMaxPooling2D":
        xi, hot = cache
        d = nhwc(dy, df)[:, 0, 0] if s["keep"] else dy
        return [], back((d[:, None, :] * hot).reshape(xi.shape), df)
    if t == "Flatten":
        shape, inner = cache
        d = dy.reshape(inner)
        if df == "channels_first" and len(shape) > 1:
            d = np.moveaxis(d, -1, 1)
        return [], d
    if t == "Reshape":
        return [], dy.reshape(cache[0])
    if t == "Activation":
        return [], r.act_deriv(s["act"], cache[0], dy)
    if t == "ReLU":
        return [], np.where(cache[0] > 0, dy, 0.0)
    raise KeyError(t)


def out_shape(s, shape):
    """Shape after the layer, by running it on zeros."""
    r = Ref("aby3")
    W = [np.zeros(w) + 1.0 for w in weight_shapes(s, shape)]
    return list(forward(r, s, W, np.zeros(shape))[0].shape)


def weight_shapes(s, shape):
    t = s["t"]
    c = None
    if len(shape) == 4:
        c = shape[1] if s.get("df") == "channels_first" else shape[3]
    if t == "Dense":
        return [[shape[1], s["units"]]] + ([[s["units"]]] if s["bias"] else [])
    if t == "Conv2D":
        return [[s["k"], s["k"], c, s["filters"]]] + ([[s["filters"]]] if s["bias"] else [])
    if t == "DepthwiseConv2D":
        return [[s["k"], s["k"], c, s["mult"]]] + ([[c * s["mult"]]] if s["bias"] else [])
    if t == "BatchNormalization":
        n = shape[s["axis"]]
        return [[n]] * (2 + bool(s["scale"]) + bool(s["center"]))
    return []


# -- the encrypted model --------------------------------------------------------


def build_layer(s, first=None):
    K = tfe.keras.layers
    kw = {}
    if first is not None:
        kw["batch_input_shape"] = list(first)
    if s.get("lazy"):
        kw["lazy_normalization"] = True
    t = s["t"]
    if "df" in s:
        if s["df"] != "channels_last" or s.get("say_df"):
            kw["data_format"] = s["df"]
    if t == "Dense":
        return K.Dense(s["units"], activation=s["act"], use_bias=s["bias"], **kw)
    if t == "Conv2D":
        return K.Conv2D(s["filters"], s["k"], strides=tuple(s["s"]), padding=s["pad"], activation=s["act"], use_bias=s["bias"], **kw)
    if t == "DepthwiseConv2D":
        return K.DepthwiseConv2D(s["k"], strides=tuple(s["s"]), padding=s["pad"], depth_multiplier=s["mult"], activation=s["act"], use_bias=s["bias"], **kw)
    if t in ("AveragePooling2D", "MaxPooling2D"):
        return getattr(K, t)(pool_size=tuple(s["k"]), strides=tuple(s["s"]) if s["s"] != s["k"] or s.get("say_s") else None, padding=s["pad"], **kw)
    if t in ("GlobalAveragePooling2D", "GlobalMaxPooling2D"):
        return getattr(K, t)(keepdims=s["keep"], **kw)
    if t == "Flatten":
        return K.Flatten(**kw)
    if t == "Reshape":
        return K.Reshape(s["say"], **kw)
    if t == "Activation":
        return K.Activation(s["act"], **kw)
    if t == "ReLU":
        return K.ReLU(**kw)
    if t == "BatchNormalization":
        return K.BatchNormalization(axis=s["axis"], epsilon=s["eps"], center=s["center"], scale=s["scale"], **kw)
    raise KeyError(t)


def keras_layer(s, first=None):
    K = tf.keras.layers
    kw = {}
    if first is not None:
        kw["batch_input_shape"] = tuple(first)
    t = s["t"]
    if t == "Dense":
        return K.Dense(s["units"], activation=s["act"], use_bias=s["bias"], **kw)
    if t == "Conv2D":
        return K.Conv2D(s["filters"], s["k"], strides=tuple(s["s"]), padding=s["pad"], activation=s["act"], use_bias=s["bias"], **kw)
    if t == "DepthwiseConv2D":
        return K.DepthwiseConv2D(s["k"], strides=tuple(s["s"]), padding=s["pad"], depth_multiplier=s["mult"], activation=s["act"], use_bias=s["bias"], **kw)
    if t in ("AveragePooling2D", "MaxPooling2D"):
        return getattr(K, t)(pool_size=tuple(s["k"]), strides=tuple(s["s"]), padding=s["pad"], **kw)
    if t in ("GlobalAveragePooling2D", "GlobalMaxPooling2D"):
        return getattr(K, t)(keepdims=s["keep"], **kw)
    if t == "Flatten":
        return K.Flatten(**kw)
    if t == "Reshape":
        return K.Reshape(tuple(s["say"]), **kw)
    if t == "Activation":
        return K.Activation(s["act"], **kw)
    if t == "ReLU":
        return K.ReLU(**kw)
    if t == "BatchNormalization":
        return K.BatchNormalization(axis=s["axis"], epsilon=s["eps"], center=s["center"], scale=s["scale"], **kw)
    raise KeyError(t)


# -- generation --------------------------------------------------------------------


def gen_stack(rng, prot, train, image=None, deep=3):
    """-> input shape (with batch), layers"""
    n = rng.choice([1, 2, 3, 4])
    aby = prot.startswith("aby3")
    img = rng.random() < 0.55 if image is None else image
    cmp_ok = aby or prot == "securenn"
    acts = [None, None, "linear"]
    if aby:
        acts += ["relu", "relu", "sigmoid", "sigmoid"]
        if not train:
            acts += ["softmax"]
    elif prot.startswith("pond"):
        acts += ["sigmoid"] + ([] if train else ["tanh"])
    else:
        acts += ["relu"]
    layers = []
    if img:
        df = rng.choice(["channels_last", "channels_last", "channels_first"])
        h, w, c = rng.randrange(2, 6), rng.randrange(2, 6), rng.randrange(1, 4)
        shape = [n, h, w, c] if df == "channels_last" else [n, c, h, w]
    else:
        shape = [n, rng.randrange(1, 6)]
    first = list(shape)
    for _ in range(rng.randrange(1, deep + 1)):
        if len(shape) == 4:
            kinds = ["Conv2D", "Conv2D", "AveragePooling2D", "GlobalAveragePooling2D", "Flatten", "Reshape", "Activation"]
            if train and not aby:
                # the gradients of these need operations that only ABY3 has
                kinds = ["Flatten", "Flatten", "Reshape", "Activation"]
            if aby:
                kinds += ["MaxPooling2D", "MaxPooling2D", "GlobalMaxPooling2D", "ReLU"]
            elif prot == "securenn" and not train:
                kinds += ["MaxPooling2D"] * 0
            if not train:
                kinds += ["DepthwiseConv2D", "BatchNormalization"]
        elif len(shape) == 2:
            kinds = ["Dense", "Dense", "Dense", "Reshape", "Activation", "Flatten"]
            if aby:
                kinds += ["ReLU"]
            if not train:
                kinds += ["BatchNormalization"]
        else:
            kinds = ["Flatten", "Flatten", "Activation", "Reshape"]
        s = gen_layer(rng, rng.choice(kinds), shape, acts, df if img else "channels_last", train, prot)
        if s is None:
            continue
        o = out_shape(s, shape)
        if np.prod(o) > 160 or np.prod(o) == 0:
            continue
        layers.append(s)
        shape = o
    if not layers:
        return gen_stack(rng, prot, train, image, deep)
    return first, layers


def gen_layer(rng, t, shape, acts, df, train, prot):
    s = {"t": t}
    act = rng.choice(acts)
    if t == "Dense":
        s.update(units=rng.randrange(1, 5), act=act, bias=rng.random() < 0.7)
        if train and rng.random() < 0.3:
            s["lazy"] = True
        return s
    if t in ("Activation",):
        s["act"] = rng.choice([a for a in acts if a])
        if s["act"] == "softmax" and len(shape) != 2:
            s["act"] = "linear"
        return s
    if t == "Reshape":
        n = int(np.prod(shape[1:]))
        ds = [d for d in range(1, n + 1) if n % d == 0]
        a = rng.choice(ds)
        tgt = rng.choice([[n], [a, n // a], [n // a, 1, a]])
        if len(tgt) == 1 and rng.random() < 0.5 and len(shape) == 4:
            tgt = [a, 1, n // a]
        s["shape"] = tgt
        say = list(tgt)
        if rng.random() < 0.5:
            say[rng.randrange(len(say))] = -1
        s["say"] = say
        return s
    if t == "Flatten":
        if len(shape) == 4:
            s["df"] = df
        return s
    if t == "ReLU":
        return s
    if t == "BatchNormalization":
        s.update(axis=1 if len(shape) == 2 else (3 if df == "channels_last" else 1), eps=rng.choice([1e-3, 0.01, 0.1]),
                 center=rng.random() < 0.8, scale=rng.random() < 0.8)
        return s
    h, w = (shape[2], shape[3]) if df == "channels_first" else (shape[1], shape[2])
    s["df"] = df
    s["say_df"] = rng.random() < 0.5
    if t in ("Conv2D", "DepthwiseConv2D"):
        k = rng.randrange(1, min(h, w, 3) + 1)
        st = rng.choice([[1, 1], [1, 1], [2, 2], [3, 3]] + ([] if train else [[1, 2], [2, 1]]))
        pad = rng.choice(["valid", "same"])
        if act == "softmax":
            act = None
        s.update(k=k, s=st, pad=pad, act=act, bias=rng.random() < 0.7)
        if t == "Conv2D":
            s["filters"] = rng.randrange(1, 4)
        else:
            s["mult"] = rng.randrange(1, 3)
        if train and pad == "valid" and ((h - k) % st[0] or (w - k) % st[1]):
            s["s"] = [1, 1]  # refused: input rows that no window covers
        if train and pad == "same" and st != [1, 1] and ((st[0] > k) or (h % st[0] and w % st[0]) and False):
            s["s"] = [1, 1]
        if train and rng.random() < 0.3 and t == "Conv2D":
            s["lazy"] = True
        return s
    if t in ("AveragePooling2D", "MaxPooling2D"):
        k = [rng.randrange(1, min(h, 3) + 1), rng.randrange(1, min(w, 3) + 1)]
        st = rng.choice([k, k, [1, 1], [2, 2], [rng.randrange(1, 4), rng.randrange(1, 4)]])
        pad = rng.choice(["valid", "same"])
        if pad == "same":
            # padding itself is a known finding of the pooling operations: only where none is needed
            for d, size in enumerate((h, w)):
                if max((-(-size // st[d]) - 1) * st[d] + k[d] - size, 0):
                    pad = "valid"
        s.update(k=k, s=list(st), pad=pad, say_s=rng.random() < 0.5)
        return s
    if t in ("GlobalAveragePooling2D", "GlobalMaxPooling2D"):
        s["keep"] = rng.random() < 0.35
        return s
    raise KeyError(t)


def grid(rng, shape, lo=-1.5, hi=1.5, step=2.0 ** -6):
    a = rng.integers(int(lo / step), int(hi / step) + 1, shape) * step
    return np.asarray(a, dtype=np.float64)


def values(spec):
    """Input and weights of the run, from its seed."""
    rng = np.random.Generator(np.random.PCG64(spec["seed"] + 17))
    x = grid(rng, spec["shape"])
    return rng, x, gen_weights(rng, spec)


def gen_weights(rng, spec):
    shape = list(spec["shape"])
    out = []
    for s in spec["layers"]:
        ws = []
        shapes = weight_shapes(s, shape)
        for i, q in enumerate(shapes):
            if s["t"] == "BatchNormalization" and i == len(shapes) - 1:
                ws.append(grid(rng, q, 0.3, 2.0))
            else:
                ws.append(grid(rng, q, -1.0, 1.0))
        out.append(ws)
        shape = out_shape(s, shape)
    return out


# -- judging -------------------------------------------------------------------------


class Band:
    """The plain results and how far an encrypted one may be from them."""

    def __init__(self, prot, compute, seed):
        """compute(ref) -> {name: array}"""
        self.clean = Ref(prot)
        self.want = compute(self.clean)
        self.dev = {k: np.zeros(np.shape(v)) for k, v in self.want.items()}
        self.ulp = self.clean.ulp
        kd = [np.zeros(k.shape) for k in self.clean.kinks]
        for i in range(NREF):
            r = Ref(prot, seed + i)
            got = compute(r)
            for k, v in got.items():
                self.dev[k] = np.maximum(self.dev[k], np.abs(np.asarray(v) - self.want[k]))
            for j, k in enumerate(r.kinks):
                kd[j] = np.maximum(kd[j], np.abs(k - self.clean.kinks[j]))
        self.tie = any(bool(np.any(np.abs(k) <= FACTOR * np.max(d, initial=0.0) + 4 * self.ulp)) for k, d in zip(self.clean.kinks, kd))

    def lim(self, name):
        # rounding of one value says little about the largest of few draws: widen by the whole result's spread
        d = self.dev[name]
        w = FACTOR * np.maximum(d, float(np.mean(d)) if d.size else 0.0)
        return w + 6 * self.ulp

    def check(self, name, got, sig, desc, coarse=0.12):
        want = self.want[name]
        got = np.asarray(got, dtype=np.float64)
        if got.shape != np.shape(want):
            raise Bad("shape:" + sig, "%s: %s has shape %s, should be %s" % (desc, name, list(got.shape), list(np.shape(want))))
        lim = self.lim(name)
        if got.size and np.max(np.abs(want)) > 500:
            raise Skip("out of the range of the encoding")
        if got.size and np.max(lim) > coarse * (1.0 + np.max(np.abs(want))):
            raise Skip("rounding may change the result by %g" % np.max(lim))
        bad = ~(np.abs(got - want) <= lim)
        if bad.any():
            i = tuple(int(q) for q in np.unravel_index(int(np.argmax(np.where(bad, np.abs(got - want) / lim, 0))), bad.shape))
            raise Bad("mismatch:" + sig, "%s: %s is %r at %s, the plain model gives %r (within %g); %d of %d elements differ" % (
                desc, name, float(got[i]), list(i), float(np.asarray(want)[i]), float(lim[i]), int(bad.sum()), bad.size))


def describe(spec):
    def one(s):
        return "%s(%s)" % (s["t"], ", ".join("%s=%s" % (k, v) for k, v in s.items() if k != "t"))
    return "%s on input %s: %s" % (spec["prot"], spec["shape"], " -> ".join(one(s) for s in spec["layers"]))


def plain(v):
    return np.asarray(v, dtype=np.float64)


def reveal(t):
    from tf_encrypted.protocol.protocol import TFEPublicTensor

    if isinstance(t, (np.ndarray, float)):
        return np.asarray(t)
    if isinstance(t, tf.Tensor):
        return t.numpy()
    if isinstance(t, TFEPublicTensor):
        return np.asarray(t.to_native())
    return np.asarray(t.reveal().to_native())
