"""Stand-ins for generated protobuf messages whose scalar fields may be symbolic, built from the real descriptors: presence, defaults, repeated fields, copy semantics and enum/range checks follow the protobuf Python API."""
RANGES = {"i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1)}
CT = {1: "i32", 2: "i64", 3: "u32", 4: "u64"}
def _sym(x): return type(x).__module__ == "sym"
def _check(fd, v):
    """value as stored (raises like protobuf for a wrong type or range)"""
    t = fd.cpp_type
    if _sym(v):
        import sym
        if t == 8:
            ok = sym.lor(*[v == n for n in fd.enum_type.values_by_number])
            if not ok: raise ValueError("invalid enum value for " + fd.name)
            return v
        if t in CT:
            if isinstance(v, sym.SB): v = sym.ite(v, 1, 0)
            if not sym._isint(v.e): raise TypeError("%s has type float, but expected an integer" % fd.name)
            lo, hi = RANGES[CT[t]]
            if not sym.land(v >= lo, v <= hi): raise ValueError("Value out of range")
            return v
        if t == 7: return v != 0 if isinstance(v, sym.SN) else v
        return v
    import numbers
    if t == 9:
        if not isinstance(v, str if fd.type == 9 else bytes): raise TypeError("%s: wrong type %s" % (fd.name, type(v)))
        return v
    if t == 7: return bool(v)
    if t in CT or t == 8:
        if not isinstance(v, numbers.Integral): raise TypeError("%s has type %s, but expected an integer" % (fd.name, type(v)))
        v = int(v)
        if t == 8:
            if v not in fd.enum_type.values_by_number: raise ValueError("invalid enum value %d for %s" % (v, fd.name))
        else:
            lo, hi = RANGES[CT[t]]
            if not lo <= v <= hi: raise ValueError("Value out of range: %d" % v)
        return v
    if not isinstance(v, numbers.Real): raise TypeError("%s has type %s, but expected a number" % (fd.name, type(v)))
    return float(v)
class Rep(list):
    def __init__(self, fd, touch=lambda: None): list.__init__(self); self.fd = fd; self.touch = touch
    def _in(self, v):
        if self.fd.cpp_type == 10:
            if not isinstance(v, Msg) or v._d is not self.fd.message_type: raise TypeError("wrong message type for " + self.fd.name)
            m = Msg(v._d, up=self.touch); m.CopyFrom(v); return m
        return _check(self.fd, v)
    def add(self, **kw):
        m = Msg(self.fd.message_type, up=self.touch, **kw); list.append(self, m); self.touch(); return m
    def append(self, v): list.append(self, self._in(v)); self.touch()
    def insert(self, i, v): list.insert(self, i, self._in(v)); self.touch()
    def extend(self, vs): [self.append(v) for v in list(vs)]
    def MergeFrom(self, o): self.extend(o)
    def __iadd__(self, o): self.extend(o); return self
    def __setitem__(self, i, v):
        if self.fd.cpp_type == 10: raise TypeError("object does not support item assignment")
        list.__setitem__(self, i, [self._in(x) for x in v] if isinstance(i, slice) else self._in(v)); self.touch()
class Msg:
    def __init__(self, desc, up=lambda: None, **kw):
        self.__dict__.update(_d=desc, _v={}, _set=set(), _up=up)
        for k, v in kw.items(): self._put(k, v)
    def _put(self, k, v):
        fd = self._fd(k)
        if fd.label == 3:
            r = getattr(self, k)
            for x in v:
                if isinstance(x, dict): r.add(**x)
                else: r.append(x)
        elif fd.cpp_type == 10: getattr(self, k).CopyFrom(v) if isinstance(v, Msg) else [getattr(self, k)._put(a, b) for a, b in v.items()]; self._mark(k)
        else: setattr(self, k, v)
    def _fd(self, k):
        fd = self._d.fields_by_name.get(k)
        if fd is None: raise AttributeError("%s has no field %s" % (self._d.full_name, k))
        return fd
    def _mark(self, k):
        fd = self._fd(k); o = fd.containing_oneof
        if o is not None:
            for f in o.fields:
                if f.name != k: self.__dict__["_set"].discard(f.name); self._v.pop(f.name, None)
        self._set.add(k); self._up()
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        fd = self.__dict__["_d"].fields_by_name.get(k)
        if fd is None:
            e = self._d.enum_values_by_name.get(k)
            if e is not None: return e.number
            raise AttributeError("%s has no field %s" % (self._d.full_name, k))
        if k in self._v: return self._v[k]
        if fd.label == 3: self._v[k] = Rep(fd, lambda: self._up()); return self._v[k]
        if fd.cpp_type == 10: self._v[k] = Msg(fd.message_type, up=lambda: self._mark(k)); return self._v[k]
        return fd.default_value
    def __setattr__(self, k, v):
        fd = self._fd(k)
        if fd.label == 3 or fd.cpp_type == 10: raise AttributeError('Assignment not allowed to "%s"' % k)
        self._v[k] = _check(fd, v); self._mark(k)
    def HasField(self, k):
        fd = self._d.fields_by_name.get(k)
        if fd is None or fd.label == 3: 
            if k in self._d.oneofs_by_name: return self.WhichOneof(k) is not None
            raise ValueError("no field " + k)
        return k in self._set
    def WhichOneof(self, o):
        for f in self._d.oneofs_by_name[o].fields:
            if f.name in self._set: return f.name
    def ClearField(self, k): self._fd(k); self._v.pop(k, None); self._set.discard(k); self._up()
    def Clear(self): self._v.clear(); self._set.clear(); self._up()
    def SetInParent(self): self._up()
    def MergeFrom(self, o):
        if not isinstance(o, Msg) or o._d is not self._d: raise TypeError("wrong message type")
        for fd in self._d.fields:
            if fd.label == 3:
                if o._v.get(fd.name): getattr(self, fd.name).extend(o._v[fd.name])
            elif fd.name in o._set:
                if fd.cpp_type == 10: getattr(self, fd.name).MergeFrom(o._v[fd.name]); self._mark(fd.name)
                else: setattr(self, fd.name, o._v[fd.name])
        self._up()
    def CopyFrom(self, o):
        if o is self: return
        self.Clear(); self.MergeFrom(o)
    def ListFields(self): return [(fd, getattr(self, fd.name)) for fd in self._d.fields if (fd.name in self._set if fd.label != 3 else len(self._v.get(fd.name, ())))]
    def IsInitialized(self): return True
    @property
    def DESCRIPTOR(self): return self._d
    def __str__(self): return "<%s>" % self._d.name
    __repr__ = __str__
    def __deepcopy__(self, memo): m = Msg(self._d); m.CopyFrom(self); return m
    def __eq__(self, o): return isinstance(o, Msg) and bool(same_msg(self, o))
    __hash__ = None
def _scalar_eq(a, b):
    return a == b
def same_msg(a, b):
    """condition under which two messages (stand-ins or real ones) hold the same fields and presence"""
    import itertools
    d = a.DESCRIPTOR
    if d.full_name != b.DESCRIPTOR.full_name: return False
    cs = []
    for fd in d.fields:
        if fd.label == 3:
            x, y = getattr(a, fd.name), getattr(b, fd.name)
            if len(x) != len(y): return False
            for p, q in zip(x, y): cs.append(same_msg(p, q) if fd.cpp_type == 10 else _scalar_eq(p, q))
        else:
            if a.HasField(fd.name) != b.HasField(fd.name): return False
            if not a.HasField(fd.name): continue
            x, y = getattr(a, fd.name), getattr(b, fd.name); cs.append(same_msg(x, y) if fd.cpp_type == 10 else _scalar_eq(x, y))
    if any(_sym(c) for c in cs):
        import sym
        return sym.land(*cs)
    return all(cs)
class Cls:
    """stands for a generated message class"""
    def __init__(self, real): self.__dict__["_real"] = real
    def __call__(self, **kw): return Msg(self._real.DESCRIPTOR, **kw)
    def __getattr__(self, k):
        return _wrap(getattr(self._real, k))
class Enum:
    """stands for an enum wrapper: names of symbolic values are looked up case by case"""
    def __init__(self, real): self.__dict__["_real"] = real
    def Name(self, n):
        if _sym(n):
            import sym
            n = sym.ENG.concretize(n)
        return self._real.Name(n)
    def __getattr__(self, k): return getattr(self._real, k)
def _wrap(v):
    if isinstance(v, type) and hasattr(v, "DESCRIPTOR"): return Cls(v)
    return Enum(v) if type(v).__name__ == "EnumTypeWrapper" else v
class Mod:
    """stands for a generated module"""
    def __init__(self, real): self.__dict__["_real"] = real
    def __getattr__(self, k):
        return _wrap(getattr(self._real, k))
def mod(vp, real): return Mod(real) if vp.symbolic else real
