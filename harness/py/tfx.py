"""A stand-in for the TensorFlow module: the operations given, numpy's of the same meaning for others, and "no answer" for the rest."""
import types
import numpy as np
SAME = dict(concat="concatenate", reduce_max="amax", reduce_min="amin", reduce_sum="sum", reduce_mean="mean", reduce_any="any", reduce_all="all", multiply="multiply", subtract="subtract")
PLAIN = "stack expand_dims squeeze zeros zeros_like ones ones_like where reshape transpose tile argmax argmin maximum minimum abs sign add equal not_equal less less_equal greater greater_equal logical_and logical_or logical_not repeat split".split()
class TF(types.ModuleType):
    def __init__(self, vp, np_=None, **ops):
        types.ModuleType.__init__(self, "tensorflow"); self.__dict__.update(_vp=vp, _np=np_ or np); self.__dict__.update(ops); self.__dict__.setdefault("__path__", [])
        for n, v in dict(int32=np.int32, int64=np.int64, float32=np.float32, float64=np.float64, bool=bool, uint8=np.uint8, uint16=np.uint16, newaxis=None, Tensor=np.ndarray, data=types.SimpleNamespace(Dataset=object)).items(): self.__dict__.setdefault(n, v)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if n in SAME: return getattr(self._np, SAME[n])
        if n in PLAIN: return getattr(self._np, n)
        self._vp.lost("TensorFlow operation %s has no stand-in" % n)
class Sub:
    """a part of the module, e.g. io or math"""
    def __init__(self, vp, **ops): self.__dict__.update(ops, _vp=vp)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        self._vp.lost("operation %s has no stand-in" % n)
