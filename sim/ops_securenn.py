"""SecureNN operations.  All of them are exact: there is no rounding in them."""
import numpy as np

from .ops_aby3 import c_pool_same_negative, p_maxpool, p_pool_same, r_maxpool_true
from .ops_common import Op, bshape, nop, p_broadcast
from .ops_pond import ALL, MASK, PRIV, PUB, PYS, keep, out_bin, unmask

BITDOM = (0, 1)


def same_scale(ms):
    return len({m.scaled for m in ms if m.kind != "py"}) == 1


def p_bits2(rng, ms):
    return {} if same_scale(ms) and bshape(ms[0].shape, ms[1].shape) is not None else None


def p_cmp(rng, ms):
    if not same_scale(ms) or bshape(ms[0].shape, ms[1].shape) is None:
        return None
    return {}


def p_select(rng, ms):
    c, x, y = ms
    if c.scaled or not same_scale([x, y]) or x.kind == "py" or y.kind == "py":
        return None
    s = bshape(x.shape, y.shape)
    if s is None or bshape(c.shape, s) is None:
        return None
    return {}


def b(x):
    return np.asarray(x, dtype=np.float64)


def cmp_op(name, f):
    return Op(name, [ALL | PYS, ALL | PYS], p_cmp, lambda t, x, p: getattr(t, name)(x[0], x[1]), lambda a, p: b(f(a[0], a[1])),
              scale=lambda ms: False, outkind=out_bin, weight=2)


def raw(a, p):
    v = np.round(np.asarray(a) * (p["_sf"] if p["_s0"] else 1)).astype(object)
    return np.vectorize(int, otypes=[object])(v) if v.size else v


def p_raw(rng, ms):
    return {"_s0": ms[0].scaled}


def nbits(p):
    return 103 if "100" in p["_prot"] else 64


def r_bits(a, p):
    r = raw(a[0], p)
    n = nbits(p)
    return np.array([[(int(v) >> i) & 1 for i in range(n)] for v in r.reshape(-1)], dtype=np.float64).reshape(list(np.shape(a[0])) + [n])


def r_lsb(a, p):
    r = raw(a[0], p)
    return np.array([int(v) & 1 for v in r.reshape(-1)], dtype=np.float64).reshape(np.shape(a[0]))


def p_lsb(rng, ms):
    if ms[0].kind != PUB and "100" not in ms[0].prot:
        return None  # the library asks for an odd modulus
    if ms[0].kind == MASK:
        return None
    return p_raw(rng, ms)


def ax(rng, ms):
    r = len(ms[0].shape)
    if r == 0:
        return None
    a = rng.randrange(r)
    if rng.random() < 0.2:
        a -= r
    return {"axis": a}


def p_bigrelu(rng, ms):
    if not ms[0].shape:
        return None
    return {"max": rng.choice([1, 2, 3, 5, 8])}


def c_argmax(a, p, outs):
    x, got = a[0], outs[-1]
    axis = p["axis"] % x.ndim
    shape = x.shape[:axis] + x.shape[axis + 1:]
    if got.shape != shape:
        return ("shape:argmax", "arg-max has shape %s, should be %s" % (got.shape, shape))
    if not got.size:
        return None
    i = got.astype(int)
    if not np.array_equal(i, got) or i.min() < 0 or i.max() >= x.shape[axis]:
        return "not an index: %r" % got.tolist()
    picked = np.take_along_axis(x, np.expand_dims(i, axis), axis).squeeze(axis)
    if not np.array_equal(picked, x.max(axis=axis)):
        return "index does not point at a maximum"
    return None


def r_max_arg(a, p):
    return [a[0].max(axis=p["axis"]), a[0].argmax(axis=p["axis"]).astype(float)]


SNN = [
    Op("bitwise_not", [ALL], nop, lambda t, x, p: t.bitwise_not(x[0]), lambda a, p: 1 - a[0], domain=BITDOM, scaled=False,
       outkind=unmask, weight=1),
    Op("bitwise_and", [ALL, ALL], p_bits2, lambda t, x, p: t.bitwise_and(x[0], x[1]), lambda a, p: a[0] * a[1],
       domain=(BITDOM, BITDOM), scaled=False, outkind=out_bin),
    Op("bitwise_or", [ALL, ALL], p_bits2, lambda t, x, p: t.bitwise_or(x[0], x[1]), lambda a, p: np.maximum(a[0], a[1]),
       domain=(BITDOM, BITDOM), scaled=False, outkind=out_bin),
    Op("bitwise_xor", [ALL, ALL], p_bits2, lambda t, x, p: t.bitwise_xor(x[0], x[1]), lambda a, p: np.abs(a[0] - a[1]),
       domain=(BITDOM, BITDOM), scaled=False, outkind=out_bin),
    Op("msb", [ALL], nop, lambda t, x, p: t.msb(x[0]), lambda a, p: b(a[0] < 0), scale=lambda ms: False, outkind=unmask, weight=1.5),
    Op("is_negative", [ALL], nop, lambda t, x, p: t.is_negative(x[0]), lambda a, p: b(a[0] < 0), scale=lambda ms: False, outkind=unmask),
    Op("non_negative", [ALL], nop, lambda t, x, p: t.non_negative(x[0]), lambda a, p: b(a[0] >= 0), scale=lambda ms: False, outkind=unmask),
    Op("lsb", [{PUB, PRIV}], p_lsb, lambda t, x, p: t.lsb(x[0]), r_lsb, scale=lambda ms: False, outkind=keep, domain=(0, 30)),
    Op("bits", [{PUB}], p_raw, lambda t, x, p: t.bits(x[0]), r_bits, scale=lambda ms: False, outkind=keep),
    cmp_op("less", np.less), cmp_op("less_equal", np.less_equal), cmp_op("greater", np.greater), cmp_op("greater_equal", np.greater_equal),
    Op("select", [ALL, ALL, ALL], p_select, lambda t, x, p: t.select(x[0], x[1], x[2]),
       lambda a, p: np.where(a[0] == 1, a[2], a[1]) + np.zeros(np.broadcast_shapes(*[np.shape(q) for q in a])),
       domain=(BITDOM, None, None), scaled=(False, None, None), scale=lambda ms: ms[1].scaled, outkind=out_bin, weight=2),
    Op("equal_zero", [{PUB}], nop, lambda t, x, p: t.equal_zero(x[0]), lambda a, p: b(a[0] == 0), scale=lambda ms: False, outkind=keep),
    Op("relu", [ALL], nop, lambda t, x, p: t.relu(x[0]), lambda a, p: np.maximum(a[0], 0), outkind=unmask, weight=2),
    Op("relu_split", [{PRIV, PUB}], p_bigrelu, lambda t, x, p: t.relu(x[0], max_size=p["max"]), lambda a, p: np.maximum(a[0], 0), outkind=unmask),
    Op("relu_cmp", [ALL], nop, lambda t, x, p: t.relu_with_cmp(x[0])[1], lambda a, p: b(a[0] >= 0), scale=lambda ms: False, outkind=unmask),
    Op("relu_cmp_split", [{PRIV, PUB}], p_bigrelu, lambda t, x, p: t.relu_with_cmp(x[0], max_size=p["max"])[1], lambda a, p: b(a[0] >= 0),
       scale=lambda ms: False, outkind=unmask),
    Op("maxpool2d", [ALL], p_maxpool, lambda t, x, p: t.maxpool2d(x[0], tuple(p["pool"]), tuple(p["strides"]), p["padding"]),
       r_maxpool_true, outkind=unmask, weight=1.5),
    Op("maxpool2d_same_negative", [{PRIV, PUB}], p_pool_same, lambda t, x, p: t.maxpool2d(x[0], tuple(p["pool"]), tuple(p["strides"]), p["padding"]),
       r_maxpool_true, outkind=unmask, check=c_pool_same_negative, weight=0.3, domain=(-8, -1)),
    Op("maximum", [ALL, ALL], p_cmp, lambda t, x, p: t.maximum(x[0], x[1]), lambda a, p: np.maximum(a[0], a[1]), outkind=out_bin, weight=2),
    Op("reduce_max", [{PUB, PRIV}], ax, lambda t, x, p: t.reduce_max(x[0], axis=p["axis"]), lambda a, p: a[0].max(axis=p["axis"]),
       outkind=keep, minrank=1, weight=1.5),
    Op("argmax", [{PUB, PRIV}], ax, lambda t, x, p: t.argmax(x[0], axis=p["axis"]), lambda a, p: b(a[0].argmax(axis=p["axis"])),
       outkind=keep, minrank=1, weight=1.5, check=c_argmax, scale=lambda ms: True),
    Op("reduce_max_with_argmax", [{PUB, PRIV}], ax, lambda t, x, p: t.reduce_max_with_argmax(x[0], axis=p["axis"])[0],
       lambda a, p: a[0].max(axis=p["axis"]), outkind=keep, minrank=1),
    # a little arithmetic, to chain the above
    Op("sub", [ALL, ALL], p_cmp, lambda t, x, p: t.sub(x[0], x[1]), lambda a, p: a[0] - a[1], outkind=out_bin, weight=0.7),
    Op("add", [ALL, ALL], p_cmp, lambda t, x, p: t.add(x[0], x[1]), lambda a, p: a[0] + a[1], outkind=out_bin, weight=0.7),
]
