"""What the stand-ins for the ROS packages share: message classes and the simulated middleware."""


class Msg:
    _fields = ()

    def __init__(self, *args, **kw):
        if args and len(args) != len(self._fields):
            raise TypeError(f"Invalid number of arguments, args should be {[f for f, _ in self._fields]}")
        for (f, d), a in zip(self._fields, args):
            setattr(self, f, a)
        if not args:
            for f, d in self._fields:
                if f in kw:
                    setattr(self, f, kw.pop(f))
                else:
                    setattr(self, f, d() if callable(d) else d)
            if kw:
                raise AttributeError(f"{type(self).__name__} has no fields {sorted(kw)}")

    def __setattr__(self, k, v):
        if k not in [f for f, _ in self._fields]:
            raise AttributeError(f"{type(self).__name__} object has no attribute {k}")
        object.__setattr__(self, k, v)

    def __eq__(self, o):
        return type(o) is type(self) and all(getattr(self, f) == getattr(o, f) for f, _ in self._fields)

    __hash__ = None

    def __repr__(self):
        return type(self).__name__ + "(" + ", ".join(f"{f}={getattr(self, f)!r}" for f, _ in self._fields) + ")"


def msg(name, fields):
    return type(name, (Msg,), dict(_fields=tuple(fields)))
