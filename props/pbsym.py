"""Stand-ins for the generated protobuf classes, built from their real descriptors, through which symbolic values can flow.

They implement the documented Python API of proto3 messages (presence, oneofs, defaults, copying of sub-messages, type and range checks).
Every path is replayed with the real generated classes, where messages also pass through the real wire encoding."""
from collections.abc import MutableSequence

RANGES = {'int32': (-2 ** 31, 2 ** 31 - 1), 'int64': (-2 ** 63, 2 ** 63 - 1), 'uint32': (0, 2 ** 32 - 1), 'uint64': (0, 2 ** 64 - 1)}
_TYPES = {1: 'double', 2: 'float', 3: 'int64', 4: 'uint64', 5: 'int32', 8: 'bool', 9: 'string', 11: 'message', 12: 'bytes', 13: 'uint32', 14: 'enum'}
CLASSES = {}


def _check(f, v):
    k = _TYPES[f.type]
    if k == 'string':
        if not isinstance(v, str):
            raise TypeError('bad argument type for built-in operation: %s' % f.name)
        return v
    if k == 'bool':
        if isinstance(v, (bool, int)):
            return bool(v)
        raise TypeError(f.name)
    if k in RANGES:
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, float) or not isinstance(v, int):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
        lo, hi = RANGES[k]
        if not (lo <= v):
            raise ValueError('Value out of range')
        if not (v <= hi):
            raise ValueError('Value out of range')
        return v
    if k in ('float', 'double'):
        if isinstance(v, (int, float)):
            return _f32(v) if k == 'float' else v
        raise TypeError(f.name)
    raise TypeError('unsupported field type ' + k)


def _f32(v):
    if type(v) in (int, float):
        import struct
        try:
            return struct.unpack('f', struct.pack('f', v))[0]
        except OverflowError:
            return float('inf') if v > 0 else float('-inf')
    return v


_DEFAULT = {'string': '', 'bool': False, 'float': 0.0, 'double': 0.0, 'int32': 0, 'int64': 0, 'uint32': 0, 'uint64': 0}


class Repeated(MutableSequence):
    def __init__(self, owner, f):
        self._o, self._f, self._l = owner, f, []
        self._msg = _TYPES[f.type] == 'message'

    def _in(self, v):
        if self._msg:
            c = CLASSES[self._f.message_type.full_name]
            if type(v) is not c:
                raise TypeError('wrong message type for ' + self._f.name)
            n = c()
            n.CopyFrom(v)
            return n
        return _check(self._f, v)

    def append(self, v):
        self._l.append(self._in(v))
        self._o._touch()

    def insert(self, i, v):
        self._l.insert(i, self._in(v))
        self._o._touch()

    def extend(self, vs):
        if vs is None:
            return
        for v in list(vs):
            self.append(v)

    MergeFrom = extend

    def add(self, **kw):
        if not self._msg:
            raise AttributeError('add')
        n = CLASSES[self._f.message_type.full_name](**kw)
        self._l.append(n)
        self._o._touch()
        return n

    def __len__(self):
        return len(self._l)

    def __getitem__(self, i):
        return self._l[i]

    def __setitem__(self, i, v):
        if self._msg:
            raise TypeError('does not support item assignment')
        self._l[i] = self._in(v)

    def __delitem__(self, i):
        del self._l[i]

    def __iter__(self):
        return iter(self._l)

    def __eq__(self, o):
        o = list(o)
        return len(self._l) == len(o) and all(bool(a == b) for a, b in zip(self._l, o))


class Message:
    DESCRIPTOR = None

    def __init__(self, **kw):
        d = self.__dict__
        d['_v'] = {}
        d['_p'] = None          # parent, field: to mark presence on the first modification
        for k, v in kw.items():
            f = self.DESCRIPTOR.fields_by_name.get(k)
            if f is None:
                raise ValueError('Protocol message %s has no "%s" field.' % (self.DESCRIPTOR.name, k))
            if v is None:
                continue
            if f.label == 3:
                getattr(self, k).extend(v)
            elif _TYPES[f.type] == 'message':
                if isinstance(v, dict):
                    v = CLASSES[f.message_type.full_name](**v)
                if type(v) is not CLASSES[f.message_type.full_name]:
                    raise TypeError('Parameter to MergeFrom() must be instance of same class')
                n = getattr(self, k)
                n.CopyFrom(v)
                n._touch()
            else:
                setattr(self, k, v)

    def _touch(self):
        if self._p is not None:
            o, f = self._p
            self.__dict__['_p'] = None
            o._set(f, self)

    def _set(self, f, v):
        if f.containing_oneof is not None:
            for g in f.containing_oneof.fields:
                if g.name != f.name:
                    self._v.pop(g.name, None)
        self._v[f.name] = v
        self._touch()

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        f = self.DESCRIPTOR.fields_by_name.get(k)
        if f is None:
            raise AttributeError(k)
        v = self._v
        if k in v:
            return v[k]
        if f.label == 3:
            r = Repeated(self, f)
            v[k] = r
            return r
        if _TYPES[f.type] == 'message':
            n = CLASSES[f.message_type.full_name]()
            n.__dict__['_p'] = (self, f)
            return n
        return _DEFAULT[_TYPES[f.type]]

    def __setattr__(self, k, x):
        f = self.DESCRIPTOR.fields_by_name.get(k)
        if f is None:
            raise AttributeError('Assignment not allowed (no field "%s" in protocol message object).' % k)
        if f.label == 3 or _TYPES[f.type] == 'message':
            raise AttributeError('Assignment not allowed to message, map, or repeated field "%s"' % k)
        self._set(f, _check(f, x))

    def HasField(self, k):
        o = self.DESCRIPTOR.oneofs_by_name.get(k)
        if o is not None:
            return self.WhichOneof(k) is not None
        f = self.DESCRIPTOR.fields_by_name.get(k)
        if f is None or f.label == 3 or (_TYPES[f.type] != 'message' and f.containing_oneof is None):
            raise ValueError('Protocol message %s has no singular "%s" field' % (self.DESCRIPTOR.name, k))
        return k in self._v

    def WhichOneof(self, o):
        for g in self.DESCRIPTOR.oneofs_by_name[o].fields:
            if g.name in self._v:
                return g.name
        return None

    def ClearField(self, k):
        self._v.pop(k, None)

    def Clear(self):
        self._v.clear()

    def SetInParent(self):
        self._touch()

    def CopyFrom(self, o):
        if o is self:
            return
        self._v.clear()
        self.MergeFrom(o)

    def MergeFrom(self, o):
        if type(o) is not type(self):
            raise TypeError('Parameter to MergeFrom() must be instance of same class')
        for k, v in list(o._v.items()):
            f = self.DESCRIPTOR.fields_by_name[k]
            if f.label == 3:
                if len(v):
                    getattr(self, k).extend(v)
            elif _TYPES[f.type] == 'message':
                n = getattr(self, k)
                n.MergeFrom(v)
                n._touch()
            else:
                setattr(self, k, v)
        self._touch()

    def ByteSize(self):
        return 1

    def SerializeToString(self):
        n = type(self)()
        n.CopyFrom(self)
        return n

    @classmethod
    def FromString(cls, s):
        n = cls()
        n.CopyFrom(s)
        return n

    def ListFields(self):
        return [(f, self._v[f.name]) for f in self.DESCRIPTOR.fields if f.name in self._v and (f.label != 3 or len(self._v[f.name]))]

    def __eq__(self, o):
        if type(o) is not type(self):
            return NotImplemented
        a, b = self.ListFields(), o.ListFields()
        return [f.name for f, _ in a] == [f.name for f, _ in b] and all(bool(x == y) for (_, x), (_, y) in zip(a, b))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __deepcopy__(self, memo):
        return self.SerializeToString()

    def __str__(self):
        return self.DESCRIPTOR.name + str([(f.name, v) for f, v in self.ListFields()])

    __repr__ = __str__


def install(symbolic):
    """replaces the message classes of the generated modules before anything else imports them"""
    if not symbolic:
        return
    import importlib
    for m in ('util_pb2', 'pm_models_pb2', 'pipelines_and_context_pb2', 'backend_service_pb2'):
        mod = importlib.import_module('ficus.grpc_pipelines.models.' + m)
        for name, d in mod.DESCRIPTOR.message_types_by_name.items():
            c = type(name, (Message,), {'DESCRIPTOR': d})
            CLASSES[d.full_name] = c
            setattr(mod, name, c)


def wire(msg):
    """through the encoding"""
    return type(msg).FromString(msg.SerializeToString())
