from .boot import np
from .family_pond import PondFamily
from .ops_securenn import SNN
from .progs import make_value

WIDE = {"msb", "is_negative", "non_negative", "less", "less_equal", "greater", "greater_equal", "select", "relu", "relu_split", "maximum", "reduce_max",
        "relu_cmp", "relu_cmp_split", "bits", "equal_zero", "reduce_max_with_argmax", "maxpool2d"}


class SecureNNFamily(PondFamily):
    """Words as well as fixed-point numbers: unscaled operands reach far into the word."""

    ops = SNN

    def kinds_for(self, prot):
        return ["const", "pubvar", "pubin", "privvar", "privvar", "privvar_tf", "privin", "privin2", "maskin", "py"]

    def modes(self, p):
        if "100" in p:
            return [("eager", 1)]
        return [("eager", 6), ("debug", 2), ("function", 3)]

    def limit(self, p):
        return 2.0 ** 30 if "100" in p else 2.0 ** 52

    def big(self, outs, lim):
        return any(np.size(o) > 1600 or (np.size(o) and np.max(np.abs(o)) > lim) for o in outs)

    def tweak(self, rng, inp, prot, op):
        if op is None or inp["kind"] == "py" or inp["scaled"] or op.name not in WIDE or (inp["lo"], inp["hi"]) == (0, 1):
            if inp["scaled"] and inp["kind"] != "py" and op is not None and op.name in WIDE and rng.random() < 0.3:
                inp["near"] = self.sf(prot)
            return
        if rng.random() < 0.6:
            inp["wide"] = 28 if "100" in prot else 50

    def make_value(self, inp):
        v = make_value(inp)
        if inp["kind"] == "py":
            return v
        r = np.random.Generator(np.random.PCG64(inp["vseed"] + 1))
        if inp.get("wide"):
            w = inp["wide"]
            bits = r.integers(0, w + 1, v.shape)
            base = (np.int64(1) << bits.astype(np.int64))
            style = r.integers(0, 4, v.shape)
            off = r.integers(-2, 3, v.shape)
            rnd = (r.random(v.shape) * base).astype(np.int64)
            m = np.where(style == 0, base + off, np.where(style == 1, rnd, np.where(style == 2, off, base - 1)))
            v = np.asarray(np.where(r.random(v.shape) < 0.5, m, -m), dtype=np.int64)
        if inp.get("near"):
            # a grid of few values, one unit of the last place apart
            v = np.asarray(np.round(r.uniform(-1, 1)) + r.integers(-2, 3, v.shape) / inp["near"], dtype=np.float64)
        return v


SNN_FAMILY = SecureNNFamily()
