"""Operations a simulated program can be made of: how to call them, and what they mean."""
import numpy as np


class Op:
    """name, how many operands, which kinds, parameters, call, reference, tolerance."""

    def __init__(self, name, kinds, params, call, ref, tol="exact", scale="same", lim=None,
                 weight=1.0, outkind=None, multi=False, domain=None, minrank=0, scaled=None, boolres=False, check=None):
        self.name = name
        self.kinds = kinds  # list of operand kind sets
        self.params = params  # f(rng, metas) -> dict | None
        self.call = call  # f(prot, tensors, p)
        self.ref = ref  # f(arrays, p) -> array | list
        self.tol = tol
        self.scale = scale
        self.lim = lim
        self.weight = weight
        self.outkind = outkind
        self.multi = multi
        self.domain = domain
        self.minrank = minrank
        self.scaled = scaled  # required scaledness of the operands, None = any
        self.boolres = boolres
        self.check = check  # f(operands, p, outs) -> None | why; replaces the comparison with the reference


def nop(rng, ms):
    return {}


def axis_of(rng, rank, neg=True):
    a = rng.randrange(rank)
    return a - rank if neg and rng.random() < 0.3 else a


def bshape(a, b):
    try:
        return list(np.broadcast_shapes(tuple(a), tuple(b)))
    except ValueError:
        return None


def p_broadcast(rng, ms):
    return {} if bshape(ms[0].shape, ms[1].shape) is not None else None


def p_matmul(rng, ms):
    a, b = ms[0].shape, ms[1].shape
    if len(a) != 2 or len(b) != 2 or a[1] != b[0]:
        return None
    return {}


def p_reduce(rng, ms):
    r = len(ms[0].shape)
    if r == 0:
        return {"axis": None, "keepdims": False}
    c = rng.random()
    if c < 0.25:
        ax = None
    else:
        ax = axis_of(rng, r)
    return {"axis": ax, "keepdims": rng.choice([None, True, False])}


def p_axis(rng, ms):
    r = len(ms[0].shape)
    if r == 0:
        return None
    return {"axis": axis_of(rng, r)}


def p_cumsum(rng, ms):
    r = len(ms[0].shape)
    if r == 0:
        return None
    return {"axis": axis_of(rng, r), "exclusive": rng.random() < 0.4, "reverse": rng.random() < 0.4}


def p_transpose(rng, ms):
    r = len(ms[0].shape)
    if rng.random() < 0.3:
        return {"perm": None}
    p = list(range(r))
    if r > 2 and rng.random() < 0.4:  # not its own inverse
        k = rng.randrange(1, r)
        return {"perm": p[k:] + p[:k]}
    rng.shuffle(p)
    return {"perm": p}


def factorizations(rng, n, maxrank=4):
    r = rng.randrange(1, maxrank + 1)
    out = []
    rest = n
    for _ in range(r - 1):
        ds = [d for d in range(1, rest + 1) if rest % d == 0]
        d = rng.choice(ds)
        out.append(d)
        rest //= d
    out.append(rest)
    rng.shuffle(out)
    return out


def p_reshape(rng, ms):
    n = int(np.prod(ms[0].shape)) if ms[0].shape else 1
    s = factorizations(rng, n)
    if rng.random() < 0.4 and n > 0:
        s[rng.randrange(len(s))] = -1
    return {"shape": s}


def p_expand(rng, ms):
    r = len(ms[0].shape)
    if r >= 4:
        return None
    a = rng.randrange(r + 1)
    return {"axis": a - (r + 1) if rng.random() < 0.3 else a}


def p_squeeze(rng, ms):
    s = ms[0].shape
    ones = [i for i, d in enumerate(s) if d == 1]
    if not ones:
        return None
    if rng.random() < 0.4:
        return {"axis": None}
    k = rng.sample(ones, rng.randrange(1, len(ones) + 1))
    return {"axis": sorted(k)}


def p_slice(rng, ms):
    s = ms[0].shape
    if not s:
        return None
    b, e, st = [], [], []
    for d in s:
        lo = rng.randrange(d)
        hi = rng.randrange(lo + 1, d + 1)
        b.append(lo)
        e.append(hi)
        st.append(rng.choice([1, 1, 1, 2]))
    return {"b": b, "e": e, "s": st}


def sl(p):
    return tuple(slice(b, e, s) for b, e, s in zip(p["b"], p["e"], p["s"]))


def p_index(rng, ms):
    s = ms[0].shape
    if not s:
        return None
    out = []
    n = rng.randrange(1, len(s) + 1)
    for d in s[:n]:
        c = rng.random()
        if c < 0.4:
            out.append(rng.randrange(d) - (d if rng.random() < 0.3 else 0))
        else:
            lo = rng.randrange(d)
            hi = rng.randrange(lo + 1, d + 1)
            out.append([lo, hi])
    if rng.random() < 0.2:
        out.append("...")
    return {"i": out}


def mkindex(p):
    r = tuple(Ellipsis if i == "..." else (slice(*i) if isinstance(i, list) else i) for i in p["i"])
    return r[0] if len(r) == 1 else r


def p_gather(rng, ms):
    s = ms[0].shape
    if not s:
        return None
    a = rng.randrange(len(s))
    return {"idx": [rng.randrange(s[a]) for _ in range(rng.randrange(1, 4))], "axis": a}


def p_split(rng, ms):
    s = ms[0].shape
    if not s:
        return None
    a = rng.randrange(len(s))
    if rng.random() < 0.5:
        ds = [d for d in range(1, s[a] + 1) if s[a] % d == 0]
        return {"n": rng.choice(ds), "axis": a}
    if s[a] < 2:
        return None
    k = rng.randrange(1, s[a])
    return {"n": [k, s[a] - k], "axis": a}


def r_split(a, p):
    n = p["n"]
    return np.split(a[0], n if isinstance(n, int) else list(np.cumsum(n)[:-1]), p["axis"])


def p_stack(rng, ms):
    if ms[0].shape != ms[1].shape or len(ms[0].shape) >= 4 or ms[0].scaled != ms[1].scaled:
        return None
    return {"axis": rng.randrange(len(ms[0].shape) + 1), "dup": rng.random() < 0.2}


def p_concat(rng, ms):
    a, b = ms[0].shape, ms[1].shape
    if len(a) != len(b) or not a or ms[0].scaled != ms[1].scaled:
        return None
    ok = [i for i in range(len(a)) if a[:i] + a[i + 1:] == b[:i] + b[i + 1:]]
    if not ok:
        return None
    return {"axis": rng.choice(ok), "dup": rng.random() < 0.2}


def seq(x, p):
    return [x[0], x[1]] + ([x[0]] if p.get("dup") else [])


def p_pad(rng, ms):
    s = ms[0].shape
    if not s:
        return None
    return {"pads": [[rng.randrange(3), rng.randrange(3)] if rng.random() < 0.6 else [0, 0] for _ in s]}


def p_tile(rng, ms):
    s = ms[0].shape
    if not s:
        return None
    return {"m": [rng.choice([1, 1, 2, 3]) for _ in s]}


# -- convolution and pooling, NCHW --------------------------------------------


def p_conv(rng, ms):
    x, w = ms[0].shape, ms[1].shape  # NCHW, HWIO
    if len(x) != 4 or len(w) != 4 or w[2] != x[1] or w[0] > x[2] or w[1] > x[3]:
        return None
    return {"strides": rng.choice([1, 1, 2]), "padding": rng.choice(["SAME", "VALID"])}


def windows(h, w, kh, kw, sh, sw, padding):
    if padding == "SAME":
        oh, ow = -(-h // sh), -(-w // sw)
        ph = max((oh - 1) * sh + kh - h, 0)
        pw = max((ow - 1) * sw + kw - w, 0)
        return oh, ow, (ph // 2, ph - ph // 2), (pw // 2, pw - pw // 2)
    return (h - kh) // sh + 1, (w - kw) // sw + 1, (0, 0), (0, 0)


def patches(x, kh, kw, sh, sw, padding, fill=0.0):
    n, c, h, w = x.shape
    oh, ow, ph, pw = windows(h, w, kh, kw, sh, sw, padding)
    xp = np.pad(x, ((0, 0), (0, 0), ph, pw), constant_values=fill)
    out = np.empty((n, c, oh, ow, kh, kw), x.dtype)
    for i in range(oh):
        for j in range(ow):
            out[:, :, i, j] = xp[:, :, i * sh:i * sh + kh, j * sw:j * sw + kw]
    return out


def r_conv(a, p):
    x, w = a
    s = p["strides"]
    pt = patches(x, w.shape[0], w.shape[1], s, s, p["padding"])
    return np.einsum("ncijab,abco->noij", pt, w)


def p_pool(rng, ms):
    s = ms[0].shape
    if len(s) != 4:
        return None
    ph = rng.randrange(1, min(3, s[2]) + 1)
    pw = ph if rng.random() < 0.6 else rng.randrange(1, min(3, s[3]) + 1)
    if pw > s[3]:
        return None
    st = [ph, pw] if rng.random() < 0.5 else [rng.randrange(1, 3), rng.randrange(1, 3)]
    return {"pool": [ph, pw], "strides": st, "padding": rng.choice(["SAME", "VALID"])}


def r_avgpool(a, p):
    pt = patches(a[0], *p["pool"], *p["strides"], p["padding"])
    return pt.mean(axis=(4, 5))


def r_maxpool(a, p):
    pt = patches(a[0], *p["pool"], *p["strides"], p["padding"], fill=p.get("fill", 0.0))
    return pt.max(axis=(4, 5))


# -- error bound of a polynomial evaluated with fixed-point arithmetic -----------


def poly_bound(x, coeffs, u):
    """coeffs: {degree: coefficient}; every product loses at most 2 units."""
    ax = np.abs(x)
    top = max(coeffs)
    err = {0: 0.0, 1: 0.0 * ax}
    for k in range(2, top + 1):
        err[k] = err[k - 1] * (ax + 2 * u) + 2 * u + ax * 0
    # powers may be built from other powers; allow for the worst split
    tot = 4 * u
    for k, w in coeffs.items():
        if k == 0:
            tot = tot + u
            continue
        tot = tot + abs(w) * 2 * err[k] + u * (1 + 0 * ax) * 3
    return tot


def enc(w, sf):
    return int(w * sf) / sf


def r_poly(x, coeffs, sf):
    z = 0.0 * x
    for k, w in coeffs.items():
        z = z + enc(w, sf) * x ** k
    return z
