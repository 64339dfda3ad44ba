"""P01: range-image compression."""
import numpy as np
PREC = {"a": 0.5, "b": 0.25, "c": 3.0, "d": 0.1}
def module(vp):
    m = vp.load("waymo_open_dataset.utils.compression.delta_encoder")
    if vp.symbolic:
        # protobuf serialisation and zlib are taken to be lossless; field types are those of the real message
        from waymo_open_dataset.protos import compressed_lidar_pb2 as real
        import sym
        def field(desc, name, vals):
            f = desc.fields_by_name[name]; lim = {f.CPPTYPE_INT32: (-2**31, 2**31 - 1), f.CPPTYPE_UINT32: (0, 2**32 - 1), f.CPPTYPE_INT64: (-2**63, 2**63 - 1), f.CPPTYPE_UINT64: (0, 2**64 - 1)}.get(f.cpp_type)
            out = []
            for v in vals:
                if lim:
                    if isinstance(v, (float, np.floating)) or isinstance(v, sym.SN) and not v.is_int: raise TypeError("%r has type float, but expected an integer" % name)
                    if not bool(sym.land(v >= lim[0], v <= lim[1])): raise ValueError("Value out of range")
                    out.append(v)
                else: out.append(float(np.float32(v)) if f.cpp_type == f.CPPTYPE_FLOAT else float(v))
            return out
        class Meta:
            def __init__(self, shape=(), quant_precision=()): d = real.Metadata.DESCRIPTOR; self.shape = field(d, "shape", shape); self.quant_precision = field(d, "quant_precision", quant_precision)
        class Data:
            def __init__(self, residual=(), mask=(), metadata=None): d = real.DeltaEncodedData.DESCRIPTOR; self.residual = field(d, "residual", residual); self.mask = field(d, "mask", mask); self.metadata = metadata
            def SerializeToString(self): return ("bytes", self)
            @staticmethod
            def FromString(b): assert b[0] == "bytes"; return b[1]
        class PB: DeltaEncodedData = Data; Metadata = Meta
        class Z:
            @staticmethod
            def compress(b): return ("zip", b)
            @staticmethod
            def decompress(b): assert b[0] == "zip"; return b[1]
        m.compressed_lidar_pb2 = PB; m.zlib = Z
    return m
def near(vp, a, b, eps): return vp.and_(a - b <= eps, b - a <= eps)
def roundtrip(vp, shape, prec, kind="f", aslist=True):
    m = module(vp); n = int(np.prod(shape)); C = shape[-1]
    v = [vp.int("pixel", -40, 40) if kind == "i" else vp.grid("pixel", -640, 640, 4) for _ in range(n)]
    img = vp.arr(np.array(v, dtype=object).reshape(shape), kind); copy = img.copy()
    q = prec[:C] if aslist else prec[0]
    e, z = vp.raises(lambda: m.compress(img, q)); vp.check(e is None, "a valid image is compressed")
    e, d = vp.raises(lambda: m.decompress(z)); vp.check(e is None, "what was compressed is decompressed")
    vp.check(tuple(d.shape) == tuple(shape), "shape")
    ok = []; mask = []; same = []
    for i in np.ndindex(*shape):
        p = prec[i[-1]] if aslist else prec[0]
        ok.append(near(vp, d[i], copy[i], p / 2 * (1 + 1e-6) + 1e-6 * vp.abs(copy[i])))
        # pixels that quantise to zero stay zero, all others keep their sign
        mask.append(vp.implies(copy[i] > p * 0.5001, d[i] > 0)); mask.append(vp.implies(copy[i] < -p * 0.5001, d[i] < 0)); mask.append(vp.implies(vp.abs(copy[i]) < p * 0.4999, d[i] == 0))
        same.append(img[i] == copy[i])
    vp.check(vp.and_(*ok), "every value is within half the precision")
    vp.check(vp.and_(*mask), "zero pixels are zero and others keep their sign")
    vp.check(vp.and_(*same), "the caller's image is not changed")
    vp.reach("end")
def reject(vp):
    m = module(vp); C = 1 + vp.choice("channels", 3); n = vp.choice("precisions", 5)
    w = vp.choice("which", max(n, 1)); q = [vp.grid("precision", -4, 8, 1) if i == w else 0.5 + i for i in range(n)]; single = n == 1 and vp.choice("scalar", 2) == 1
    bad = vp.or_(n != C and not single, *[x <= 0 for x in q]) if n else True
    if not vp.symbolic: q = [float(x) for x in q]
    q = [vp.conc(x) for x in q]
    e, z = vp.raises(lambda: m.compress(vp.arr(np.full((2, 2, C), 3.0), "f"), q[0] if single else q))
    vp.check(vp.or_(vp.and_(bad, isinstance(e, ValueError)), vp.and_(vp.not_(bad), e is None)), "refused exactly when a precision is not positive or their number is wrong")
    vp.reach("end")
def runs(vp, n):
    """run lengths round-trip for every 0/1 sequence, in the documented form"""
    m = module(vp); k = 1 + vp.choice("length", n); x = [vp.int("bit", 0, 1) for _ in range(k)]
    if not (hasattr(m, "_rlencode") and hasattr(m, "_rldecode")): vp.lost("the run length functions are elsewhere")
    l = m._rlencode(vp.arr(x, "i")); y = m._rldecode(l)
    vp.check(len(y) == k, "length"); vp.check(vp.and_(*[y[i] == x[i] for i in range(k)]), "run lengths decode to the sequence")
    vp.reach("end")
