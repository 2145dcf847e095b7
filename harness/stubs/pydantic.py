"""Stand-in for pydantic.BaseModel / Field: typed attributes with defaults, nested construction from mappings."""
import copy, json, typing, types, sys

_MISSING = object()


class _Field:
    def __init__(self, default=_MISSING, default_factory=None, **k):
        self.default, self.default_factory = default, default_factory
    def get(self):
        return self.default_factory() if self.default_factory else copy.deepcopy(self.default)


def Field(default=_MISSING, *, default_factory=None, **k):
    return _Field(default, default_factory)


class ValidationError(ValueError):
    pass


def _fits(tp, v):
    """(ok, converted)"""
    o = typing.get_origin(tp)
    if o in (typing.Union, types.UnionType):
        for a in typing.get_args(tp):
            ok, r = _fits(a, v)
            if ok: return True, r
        return False, None
    if o is typing.Literal:
        return v in typing.get_args(tp), v
    if tp is type(None):
        return v is None, None
    if o is dict:
        if not isinstance(v, dict): return False, None
        a = typing.get_args(tp); out = {}
        for k, x in v.items():
            ok, r = _fits(a[1], x)
            if not ok: return False, None
            out[k] = r
        return True, out
    if isinstance(tp, type) and issubclass(tp, BaseModel):
        if isinstance(v, tp): return True, v
        if isinstance(v, dict):
            try: return True, tp(**v)
            except ValidationError: return False, None
        return False, None
    if tp is float: return isinstance(v, (int, float)) and not isinstance(v, bool), (float(v) if isinstance(v, (int, float)) else v)
    if tp in (int, str, bool): return isinstance(v, tp), v
    return True, v


class BaseModel:
    def __init__(self, **kw):
        hints = typing.get_type_hints(type(self))
        for n, tp in hints.items():
            if n.startswith("_"): continue
            if n in kw:
                ok, v = _fits(tp, kw[n])
                if not ok: raise ValidationError(f"{n}: {kw[n]!r}")
            else:
                d = getattr(type(self), n, _MISSING)
                if d is _MISSING: raise ValidationError(f"{n} missing")
                v = d.get() if isinstance(d, _Field) else copy.deepcopy(d)
            self.__dict__[n] = v
    def dict(self):
        return {k: (v.dict() if isinstance(v, BaseModel) else v) for k, v in self.__dict__.items()}
    model_dump = dict
    def copy(self, *, update=None, deep=False):
        c = type(self).__new__(type(self))
        c.__dict__.update(copy.deepcopy(self.__dict__) if deep else self.__dict__)
        c.__dict__.update(update or {})
        return c
    model_copy = copy
    def json(self, **k): return json.dumps(self.dict(), **k)
    model_dump_json = json
    @classmethod
    def parse_obj(cls, o): return cls(**o)
    model_validate = parse_obj
    @classmethod
    def parse_raw(cls, s): return cls(**json.loads(s))
    model_validate_json = parse_raw
    @classmethod
    def construct(cls, **kw): return cls(**kw)
    def __eq__(self, o): return type(o) is type(self) and self.__dict__ == o.__dict__
    __hash__ = object.__hash__
