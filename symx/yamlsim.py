"""yaml module stand-in: documents with symbolic values are written by the real library, each symbolic
value as a unique text that turns into the value again when the document is loaded.

What a scalar becomes (its tag and text) is still decided by the representers /repo registered.
"""
from __future__ import annotations

from datetime import datetime, timedelta

import yaml as real
import z3

from . import engine as E
from . import pyd
from .engine import SymBool, SymInt, SymReal, Unsupported
from .shims import SymBytes, SymStr
from .symtime import SymDT, SymTD

_store: dict = {}


def _token(v):
    t = f"symbolic-yaml-{len(_store)}"
    _store[t] = v
    return t


class _Dumper:
    """the part of a yaml dumper that representers of scalars use"""

    def represent_scalar(self, tag, value, style=None):
        kind = tag.rsplit(":", 1)[-1]
        if value in pyd.TOKENS or value in _texts():
            return (kind, value)
        raise Unsupported(f"yaml scalar {tag} {value!r}")

    def represent_int(self, x):
        return ("value", x)

    represent_float = represent_bool = represent_str = represent_int

    def represent_data(self, x):
        return _represent(x)


def _texts():
    return {t: k for k, t in E._ph.items()}


def _value_of_text(kind, text):
    v = pyd.TOKENS.get(text)
    if v is None:
        v = E.PH_VALUES.get(text)
    if v is None:
        raise Unsupported(f"yaml text {text!r}")
    if kind == "int" and type(v) is SymInt:
        return v
    if kind == "float" and type(v) is SymReal:
        return v
    if kind == "timestamp" and type(v) is SymDT:
        return v
    raise Unsupported(f"yaml scalar {kind} from {type(v).__name__}")


def _represent(v):
    """("value", x): loads back as x"""
    t = type(v)
    cls = {SymTD: timedelta, SymDT: datetime, SymInt: int, SymReal: float, SymBool: bool,
           SymStr: str, SymBytes: bytes}.get(t)
    if cls is None:
        return ("value", v)
    rep = real.SafeDumper.yaml_representers.get(cls)
    if rep is None:
        raise real.representer.RepresenterError("cannot represent an object", v)
    if rep is real.representer.SafeRepresenter.yaml_representers.get(cls):
        return ("value", v)  # the library's own: exact
    r = rep(_Dumper(), v)
    return r if r[0] == "value" else ("value", _value_of_text(*r))


def _pack(x):
    t = type(x)
    if t is dict or t.__name__ == "SymDict":
        return {_pack(k) if pyd.has_sym(k) else k: _pack(v) for k, v in x.items()}
    if t in (list, tuple):
        return [_pack(v) for v in x]
    if t is not str and t in pyd.SYM_LEAVES:
        v = _represent(x)[1]
        return _token(v) if type(v) in pyd.SYM_LEAVES else v
    return x


def _unpack(x):
    t = type(x)
    if t is dict:
        return {_unpack(k): _unpack(v) for k, v in x.items()}
    if t is list:
        return [_unpack(v) for v in x]
    return _store.get(x, x) if t is str else x


class Yaml:
    def __getattr__(self, name):
        return getattr(real, name)

    def safe_dump(self, data, stream=None, **kw):
        return real.safe_dump(_pack(data), stream, **kw)

    def dump(self, data, stream=None, Dumper=real.Dumper, **kw):  # noqa: N803
        return real.dump(_pack(data), stream, Dumper=Dumper, **kw)

    def safe_load(self, stream):
        return _unpack(real.safe_load(stream))

    def load(self, stream, Loader):  # noqa: N803
        return _unpack(real.load(stream, Loader))


def install(modules):
    for m in modules:
        if m.__dict__.get("yaml") is real:
            m.__dict__["yaml"] = Yaml()


_ = z3
