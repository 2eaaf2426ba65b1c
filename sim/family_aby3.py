from .progs import *  # noqa: F401,F403
from .progs import Family
from .boot import np, tf, tfe
from .ops_aby3 import AB3, APPROX, NOFN
from tf_encrypted.protocol.protocol import TFETensor


class Aby3Family(Family):
    ops = AB3

    def kinds_for(self, prot):
        return ["const", "pubvar", "pubvar_tf", "pubin", "privvar", "privvar", "privvar_tf", "privvar_from_priv", "privin", "privin2", "py"]

    def sf(self, p):
        return 2.0 ** (32 if "128" in p else 16)

    def limit(self, p):
        return 300.0

    def wide(self, p):
        return 40.0

    def modes(self, p):
        return [("eager", 5), ("debug", 3), ("function", 3)]

    def ctx(self, prot, p):
        return {"ulp": 1.0 / self.sf(p), "trunc": 2.0, "composite_wrap": False, "wrap_min": 2.0 ** 8}

    def is_tensor(self, t):
        return isinstance(t, TFETensor)

    def build_input(self, prot, i, v):
        k = i["kind"]
        sc = i["scaled"]
        if k == "py":
            return v
        if k == "const":
            return prot.define_constant(v, apply_scaling=sc)
        if k == "pubvar":
            return prot.define_public_variable(v, apply_scaling=sc)
        if k == "pubvar_tf":
            return prot.define_public_variable(tf.constant(v), apply_scaling=sc)
        if k == "privvar":
            return prot.define_private_variable(v, apply_scaling=sc)
        if k == "privvar_tf":
            return prot.define_private_variable(tf.constant(v), apply_scaling=sc)
        if k == "privvar_from_priv":
            return prot.define_private_variable(prot.define_private_input(i["owner"], lambda: tf.constant(v), apply_scaling=sc), apply_scaling=sc)
        if k == "pubin":
            return prot.define_public_input(i["owner"], lambda: tf.constant(v), apply_scaling=sc)
        if k == "privin":
            return prot.define_private_input(i["owner"], lambda: tf.constant(v), apply_scaling=sc)
        if k == "privin2":
            return prot.define_private_input(i["owner"], lambda: [tf.constant(v), tf.constant(v[..., :1])], apply_scaling=sc)[0]
        raise KeyError(k)

    def reveal(self, prot, t):
        from tf_encrypted.protocol.aby3.aby3_tensors import ABY3PublicTensor

        if not self.is_tensor(t) or isinstance(t, ABY3PublicTensor):
            return t
        return t.reveal()

    def copies(self, prot, t):
        return [np.asarray(u.to_native()) for u in t.unwrapped]

    def native(self, prot, t):
        return np.asarray(t.to_native())


class ApproxFamily(Aby3Family):
    ops = APPROX
    nofn = NOFN


ABY3_FAMILY = Aby3Family()
APPROX_FAMILY = ApproxFamily()
