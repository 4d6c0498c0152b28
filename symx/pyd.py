"""Symbolic counterpart of pydantic's (compiled) validation for the models of /repo.

Everything is taken from the live model classes: field annotations, constraint metadata,
defaults and the model's own before/after validators (which run as real python code).
Only used when a symbolic value is among the inputs; otherwise pydantic itself runs.
"""
from __future__ import annotations

import enum
import inspect
import typing
import types
from datetime import datetime, timedelta
from typing import Any

import annotated_types as at
import z3
from pydantic import BaseModel, TypeAdapter, ValidationError
from pydantic.fields import FieldInfo
from pydantic_core import PydanticUndefined

from . import engine as E
from .arrays import SymND, SymVec
from .engine import SymBool, SymInt, SymReal, Unsupported, ctx, is_sym, lift, s_float
from .shims import SymBytes, SymStr

SYM_LEAVES: set = {SymInt, SymReal, SymBool, SymVec, SymND, SymBytes, SymStr}
TOKENS: dict = {}  # texts that stand for symbolic instants


def has_sym(x, depth=0, models=False):
    t = type(x)
    if t in SYM_LEAVES:
        return True
    if t is str:
        return bool(TOKENS) and x in TOKENS
    if t is dict:
        return any(has_sym(v, depth + 1, models) for v in x.values()) if depth < 8 else False
    if t in (list, tuple, set):
        return any(has_sym(v, depth + 1, models) for v in x) if depth < 8 else False
    if models and isinstance(x, BaseModel):
        return any(has_sym(v, depth + 1, models) for v in x.__dict__.values())
    return False


def fail(cls, loc, msg, inp=None):
    title = cls if isinstance(cls, str) else cls.__name__
    raise ValidationError.from_exception_data(
        title, [{"type": "value_error", "loc": tuple(loc), "input": str(type(inp)),
                 "ctx": {"error": ValueError(msg)}}])


_adapters: dict = {}


def adapter(ann, meta, cfg):
    key = (repr(ann), repr(meta), id(cfg))
    ta = _adapters.get(key)
    if ta is None:
        t = ann
        for m in meta:
            t = typing.Annotated[t, m]
        try:
            ta = TypeAdapter(t, config=cfg)
        except Exception:
            ta = TypeAdapter(t)
        _adapters[key] = ta
    return ta


def constraint(cls, loc, v, m):
    if isinstance(m, FieldInfo):
        for x in m.metadata:
            constraint(cls, loc, v, x)
        return
    if isinstance(m, at.GroupedMetadata):
        for x in m:
            constraint(cls, loc, v, x)
        return
    checks = []
    if isinstance(m, at.Gt):
        checks.append(lambda: v > m.gt)
    elif isinstance(m, at.Ge):
        checks.append(lambda: v >= m.ge)
    elif isinstance(m, at.Lt):
        checks.append(lambda: v < m.lt)
    elif isinstance(m, at.Le):
        checks.append(lambda: v <= m.le)
    elif isinstance(m, at.MinLen):
        checks.append(lambda: len(v) >= m.min_length)
    elif isinstance(m, at.MaxLen):
        checks.append(lambda: len(v) <= m.max_length)
    else:
        d = getattr(m, "__dict__", {})
        for k, f in (("gt", lambda c: v > c), ("ge", lambda c: v >= c), ("lt", lambda c: v < c),
                     ("le", lambda c: v <= c), ("min_length", lambda c: len(v) >= c),
                     ("max_length", lambda c: len(v) <= c)):
            if d.get(k) is not None:
                checks.append(lambda f=f, c=d[k]: f(c))
        if d.get("pattern") is not None and type(v) is SymStr:
            checks.append(lambda c=d["pattern"]: pattern(v, c))
        if d.get("multiple_of") is not None or getattr(m, "multiple_of", None) is not None:
            raise Unsupported("multiple_of")
    for c in checks:
        if not bool(c()):
            fail(cls, loc, f"constraint {m} violated", v)


WHITE = (*range(9, 14), 0x20, 0x85, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000)


def _one_of(code, codes):
    e = lift(code)[0]
    return bool(SymBool(z3.simplify(z3.Or(*[e == c for c in codes]))))


def text(cls, loc, v, meta, cfg):
    """settings of the model for texts; limits of the field itself come first"""
    codes = list(v.codes)
    if getattr(v, "opaque", False):
        return v
    if cfg.get("str_strip_whitespace"):
        while codes and _one_of(codes[0], WHITE):
            codes = codes[1:]
        while codes and _one_of(codes[-1], WHITE):
            codes = codes[:-1]
    own = set()
    for m in meta:
        for x in (m if isinstance(m, at.GroupedMetadata) else [m]):
            own |= {k for k in ("min_length", "max_length") if getattr(x, k, None) is not None}
    if "min_length" not in own and cfg.get("str_min_length") and len(codes) < cfg["str_min_length"]:
        fail(cls, loc, "text too short", v)
    if "max_length" not in own and cfg.get("str_max_length") and len(codes) > cfg["str_max_length"]:
        fail(cls, loc, "text too long", v)
    return SymStr(codes)


def pattern(v, pat):
    """regular expression of one repeated class of characters"""
    import re
    prs = list(re._parser.parse(getattr(pat, "pattern", pat)))
    c = re._constants
    head = bool(prs) and prs[0] in ((c.AT, c.AT_BEGINNING), (c.AT, c.AT_BEGINNING_STRING))
    prs = prs[1:] if head else prs
    tail = bool(prs) and prs[-1] in ((c.AT, c.AT_END), (c.AT, c.AT_END_STRING))
    prs = prs[:-1] if tail else prs
    if len(prs) == 1 and prs[0][0] in (c.IN, c.LITERAL, c.NOT_LITERAL, c.ANY):
        prs = [(c.MAX_REPEAT, (1, 1, prs))]
    if len(prs) != 1 or prs[0][0] is not c.MAX_REPEAT:
        raise Unsupported(f"pattern {pat}")
    lo, hi, sub = prs[0][1]
    sub = list(sub)
    if len(sub) != 1 or sub[0][0] not in (c.IN, c.LITERAL, c.NOT_LITERAL, c.ANY):
        raise Unsupported(f"pattern {pat}")
    kind, arg = sub[0]
    items = [(kind, arg)] if kind is not c.IN else list(arg)
    ok = []
    for code in v.codes:
        e = lift(code)[0]
        alt, neg = [], False
        for k, a in items:
            if k is c.NEGATE:
                neg = True
            elif k is c.LITERAL:
                alt.append(e == a)
            elif k is c.NOT_LITERAL:
                alt.append(e != a)
            elif k is c.RANGE:
                alt.append(z3.And(e >= a[0], e <= a[1]))
            elif k is c.ANY:
                alt.append(e != 10)
            else:
                raise Unsupported(f"pattern {pat}")
        ok.append(z3.Not(z3.Or(*alt)) if neg else z3.Or(*alt))
    n = len(ok)
    hi = n if hi is c.MAXREPEAT else min(hi, n)
    # part of the text that matches
    spans = [z3.And(*ok[a:a + k]) for k in range(lo, hi + 1) for a in range(n - k + 1)
             if (not head or a == 0) and (not tail or a + k == n)]
    return SymBool(z3.simplify(z3.Or(*spans)))


def sym_field(cls, loc, ann, meta, v, cfg):
    if type(v) is str and v in TOKENS and isinstance(ann, type) and issubclass(ann, datetime):
        v = TOKENS[v]
    if not has_sym(v):
        if isinstance(ann, type) and issubclass(ann, BaseModel) and isinstance(v, ann):
            return v
        if isinstance(v, (list, tuple)) and has_sym(v, models=True) or \
                isinstance(v, BaseModel):
            pass  # instances are accepted as they are, handled below
        else:
            return adapter(ann, meta, cfg).validate_python(v)
    origin = typing.get_origin(ann)
    args = typing.get_args(ann)
    if origin is typing.Annotated:
        v = sym_field(cls, loc, args[0], list(args[1:]), v, cfg)
        for m in meta:
            constraint(cls, loc, v, m)
        return v
    if origin in (typing.Union, types.UnionType):
        # pydantic's smart mode: exact type first, then members in order
        cands = [a for a in args if a is not type(None)]
        order = sorted(cands, key=lambda a: 0 if _exact(a, v) else 1)
        err = None
        for a in order:
            try:
                return sym_field(cls, loc, a, meta, v, cfg)
            except (ValidationError, ValueError, TypeError) as x:
                err = x
        raise err
    if ann is Any or ann is None or isinstance(ann, typing.TypeVar):
        return v
    if origin in (list, tuple, set) or ann in (list, tuple, set):
        if not isinstance(v, (list, tuple, set)):
            fail(cls, loc, "list expected", v)
        sub = args[0] if args else Any
        r = [sym_field(cls, [*loc, i], sub, [], x, cfg) for i, x in enumerate(v)]
        for m in meta:
            constraint(cls, loc, r, m)
        return r if (origin or ann) is list else (origin or ann)(r)
    if origin is dict or ann is dict:
        if not isinstance(v, dict):
            fail(cls, loc, "dict expected", v)
        return dict(v)
    if isinstance(ann, type):
        if issubclass(ann, BaseModel):
            if isinstance(v, ann):
                return v
            if isinstance(v, dict):
                return sym_validate(ann, v)
            fail(cls, loc, f"{ann.__name__} expected", v)
        t = type(v)
        if issubclass(ann, bool):
            if t is SymBool:
                return v
            if t in (SymInt, SymReal):
                if bool(v == 0):
                    return False
                if bool(v == 1):
                    return True
            fail(cls, loc, "bool expected", v)
        if issubclass(ann, int) and not issubclass(ann, enum.Enum):
            if t is SymReal:
                if not ctx().branch(z3.IsInt(v.e)):
                    fail(cls, loc, "int expected", v)
                v = E.s_int(v)
            elif t is SymBool:
                v = v._num()
            elif t is not SymInt:
                fail(cls, loc, "int expected", v)
        elif issubclass(ann, float):
            if t not in (SymInt, SymReal, SymBool):
                fail(cls, loc, "float expected", v)
            v = s_float(v)
        elif issubclass(ann, (str, bytes)):
            if not isinstance(v, ann):
                fail(cls, loc, "text expected", v)
            if type(v) is SymStr:
                v = text(cls, loc, v, meta, cfg)
        elif issubclass(ann, timedelta):
            from .symtime import SymTD
            if t is not SymTD:
                if t not in (SymInt, SymReal):
                    fail(cls, loc, "timedelta expected", v)
                v = SymTD.from_seconds(v)
        elif issubclass(ann, datetime):
            from .symtime import SymDT
            if t is not SymDT:
                if t not in (SymInt, SymReal):
                    fail(cls, loc, "datetime expected", v)
                v = SymDT.from_unix(v)
        elif issubclass(ann, enum.Enum):
            if t is SymInt:
                for mem in ann:
                    if isinstance(mem.value, int) and bool(v == mem.value):
                        return mem.value if cfg.get("use_enum_values") else mem
                fail(cls, loc, "enum expected", v)
            if t in (SymReal, SymBool):
                fail(cls, loc, "enum expected", v)
            raise Unsupported(f"symbolic enum from {t}")
        else:
            raise Unsupported(f"symbolic field of type {ann}")
        for m in meta:
            constraint(cls, loc, v, m)
        return v
    if origin is typing.Literal:
        for a in args:
            if bool(v == a):
                return a
        fail(cls, loc, "literal expected", v)
    raise Unsupported(f"annotation {ann}")


def _exact(a, v):
    if typing.get_origin(a) is typing.Annotated:
        a = typing.get_args(a)[0]
    o = typing.get_origin(a) or a
    try:
        return isinstance(v, o)
    except TypeError:
        return False


def sym_validate(cls, data):
    if isinstance(data, cls):
        return data
    cfg = cls.model_config
    deco = cls.__pydantic_decorators__
    mvs = list(deco.model_validators.values())
    try:
        for d in reversed([d for d in mvs if d.info.mode == "before"]):
            data = getattr(cls, d.cls_var_name)(data)
    except (AssertionError, ValueError) as x:
        if isinstance(x, ValidationError):
            raise
        fail(cls, (), str(x))
    if isinstance(data, cls):
        return data
    data = dict(data)
    values, fset = {}, set()
    for name, f in cls.model_fields.items():
        key = f.validation_alias or f.alias or name
        if key in data or name in data:
            v = data.pop(key) if key in data else data.pop(name)
            fset.add(name)
        else:
            v = f.get_default(call_default_factory=True)
            if v is PydanticUndefined:
                fail(cls, (name,), "Field required")
            if not cfg.get("validate_default"):
                values[name] = v
                continue
        v = field_validators(cls, name, v, "before")
        v = sym_field(cls, [name], f.annotation, f.metadata, v, cfg)
        values[name] = field_validators(cls, name, v, "after")
    if data and cfg.get("extra") == "forbid":
        fail(cls, tuple(data)[:1], "Extra inputs are not permitted")
    obj = cls.__new__(cls)
    object.__setattr__(obj, "__dict__", values)
    object.__setattr__(obj, "__pydantic_fields_set__", fset)
    object.__setattr__(obj, "__pydantic_extra__", None)
    object.__setattr__(obj, "__pydantic_private__", None)
    try:
        for d in [d for d in mvs if d.info.mode == "after"]:
            r = getattr(obj, d.cls_var_name)()
            obj = r if r is not None else obj
    except (AssertionError, ValueError) as x:
        if isinstance(x, ValidationError):
            raise
        fail(cls, (), str(x))
    return obj


def field_validators(cls, name, v, mode):
    for d in cls.__pydantic_decorators__.field_validators.values():
        if (name in d.info.fields or "*" in d.info.fields) and d.info.mode == mode:
            try:
                v = getattr(cls, d.cls_var_name)(v)
            except (AssertionError, ValueError) as x:
                fail(cls, (name,), str(x))
    return v


# ------------------------------------------------------------------------------ patches
def _dump_val(v, kw):
    if isinstance(v, BaseModel):
        return sym_dump(v, **kw)
    if type(v) in (list, tuple, set):
        return type(v)(_dump_val(x, kw) for x in v)
    if type(v) is dict:
        return {k: _dump_val(x, kw) for k, x in v.items()}
    return v


def sym_dump(self, *, include=None, exclude=None, exclude_unset=False, exclude_defaults=False,
             exclude_none=False, mode="python", **_k):
    out = {}
    sub = {"exclude_unset": exclude_unset, "exclude_defaults": exclude_defaults,
           "exclude_none": exclude_none, "mode": mode}
    for name, f in type(self).model_fields.items():
        if include is not None and name not in include:
            continue
        if exclude is not None and name in exclude:
            continue
        v = self.__dict__[name]
        if exclude_unset and name not in self.__pydantic_fields_set__:
            continue
        if exclude_none and v is None:
            continue
        if exclude_defaults and not f.is_required() and f.default_factory is None:
            d = f.get_default(call_default_factory=True)
            if d is v or (d == v):
                continue
        out[name] = _dump_val(v, sub)
    return out


def _validate_call_dispatch(orig):
    raw = orig.raw_function
    sig = inspect.signature(raw)
    try:
        hints = typing.get_type_hints(raw, include_extras=True)
    except (NameError, TypeError):
        hints = {}

    class title:  # for error messages
        pass
    title.__name__ = getattr(raw, "__name__", "call")

    def call(*a, **k):
        if any(has_sym(x, models=True) or _foreign(x) for x in (*a, *k.values())):
            b = sig.bind(*a, **k)
            for n, v in b.arguments.items():
                if n in hints and sig.parameters[n].kind not in (inspect.Parameter.VAR_KEYWORD, inspect.Parameter.VAR_POSITIONAL) \
                        and (is_sym(v) or type(v) in (list, dict, tuple)):
                    b.arguments[n] = sym_field(title, [n], hints[n], [], v, {})
            return raw(*b.args, **b.kwargs)
        return orig(*a, **k)
    call.__name__ = getattr(raw, "__name__", "call")
    call.__doc__ = raw.__doc__
    call.raw_function = raw
    call._sym_dispatch = True
    return call


FOREIGN: tuple = ()


def _foreign(x):
    return bool(FOREIGN) and type(x) in FOREIGN


def install(modules):
    from shepherd_core.data_models.base.shepherd import ShpModel
    import pydantic

    if not getattr(ShpModel, "_sym_patched", False):
        real_init = BaseModel.__init__
        real_dump = BaseModel.model_dump

        def __init__(self, /, **data):
            if has_sym(data):
                obj = sym_validate(type(self), data)
                for k in ("__dict__", "__pydantic_fields_set__", "__pydantic_extra__",
                          "__pydantic_private__"):
                    object.__setattr__(self, k, getattr(obj, k))
            else:
                real_init(self, **data)

        __init__.__pydantic_base_init__ = True

        def model_dump(self, **kw):
            if has_sym(self, models=True):
                return sym_dump(self, **kw)
            return real_dump(self, **kw)

        type.__setattr__(ShpModel, "__init__", __init__)
        type.__setattr__(ShpModel, "model_dump", model_dump)
        type.__setattr__(ShpModel, "_sym_patched", True)

    seen = set()
    for m in modules:
        for name, v in list(m.__dict__.items()):
            if hasattr(v, "raw_function") and not hasattr(v, "_sym_dispatch"):
                m.__dict__[name] = _validate_call_dispatch(v)
            if isinstance(v, type) and v.__module__ == m.__name__ and v not in seen:
                seen.add(v)
                for k, w in list(v.__dict__.items()):
                    fn = w.__func__ if isinstance(w, (classmethod, staticmethod)) else w
                    if hasattr(fn, "raw_function") and not hasattr(fn, "_sym_dispatch"):
                        new = _validate_call_dispatch(fn)
                        if isinstance(w, (classmethod, staticmethod)):
                            new = type(w)(new)
                        type.__setattr__(v, k, new)
    _ = pydantic
