"""Import of the code under test: always from its source text (no byte-code cache), and - when it is
about to be explored - with the few operations that python resolves on builtin types, where a
stand-in cannot take part, turned into calls: text.join(x), `a in b`, set and (empty or computed) dict displays, Counter, type(x) and
imports within functions."""
from __future__ import annotations

import ast
import builtins
import importlib._bootstrap_external as _be

from .engine import SymBool, SymInt, SymReal, is_sym, lift, to_bool_expr


class Rewriter(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and len(node.args) == 1 \
                and not node.keywords and not isinstance(node.args[0], ast.Starred):
            return self._call("__symx_join__", [f.value, node.args[0]], node)
        if isinstance(f, ast.Name) and f.id == "type" and len(node.args) == 1 \
                and not node.keywords and not isinstance(node.args[0], ast.Starred):
            return self._call("__symx_type__", [
                node.args[0], ast.Call(func=ast.Name("globals", ast.Load()), args=[], keywords=[])], node)
        if isinstance(f, ast.Name) and f.id in ("dict", "Counter", "defaultdict") and (f.id != "dict" or not node.keywords):
            return self._call(f"__symx_{f.id}__", node.args, node, node.keywords)
        if isinstance(f, ast.Attribute) and f.attr in ("fromkeys", "Counter", "defaultdict") and isinstance(f.value, ast.Name) \
                and f.value.id in ("dict", "collections"):
            return self._call(f"__symx_{f.attr}__", node.args, node, node.keywords)
        return node

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)  # the format stays as it is
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if all(isinstance(v, ast.Constant) for v in node.values):
            return node
        parts = [v if isinstance(v, ast.Constant) else v.value if v.conversion == -1 and v.format_spec is None else ast.JoinedStr([v])
                 for v in node.values]
        return self._call("__symx_fstr__", parts, node)

    def visit_FunctionDef(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    depth = 0

    def _import(self, node):
        """imports within a function are given the stand-ins as well"""
        if not self.depth:
            return node
        names = [(a.asname or a.name.split(".")[0]) for a in node.names if a.name != "*"]
        return [node, *[self._at(ast.Assign([ast.Name(n, ast.Store())], ast.Call(
            ast.Name("__symx_import__", ast.Load()), [ast.Name(n, ast.Load())], [])), node) for n in names]]

    visit_Import = visit_ImportFrom = _import

    @staticmethod
    def _at(new, node):
        return ast.fix_missing_locations(ast.copy_location(new, node))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.depth or node.keys:
            return node
        return self._call("__symx_dict__", [], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._call("__symx_dict__", [ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)], node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return self._call("__symx_in__" if isinstance(node.ops[0], ast.In) else "__symx_not_in__",
                              [node.left, node.comparators[0]], node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call("__symx_set__", [ast.Tuple(node.elts, ast.Load())], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call("__symx_set__", [ast.GeneratorExp(node.elt, node.generators)], node)

    @staticmethod
    def _call(name, args, node, keywords=()):
        new = ast.Call(func=ast.Name(name, ast.Load()), args=args, keywords=list(keywords))
        return ast.fix_missing_locations(ast.copy_location(new, node))


def s_join(sep, parts):
    from .shims import SymBytes, SymStr
    if isinstance(sep, (str, bytes)):
        if type(parts) in (str, SymStr, SymBytes, bytes) or not hasattr(parts, "__iter__"):
            pass
        else:
            parts = list(parts)
        if isinstance(sep, str) and (type(sep) is SymStr or type(parts) is SymStr or
                                     isinstance(parts, list) and any(type(p) is SymStr for p in parts)):
            return SymStr(SymStr.codes_of(sep)).join(parts)
        if isinstance(sep, bytes) and isinstance(parts, list) and \
                (type(sep) is SymBytes or any(type(p) is SymBytes for p in parts)):
            out = []
            for k, p in enumerate(parts):
                if k:
                    out += list(sep)
                out += list(p)
            return SymBytes(out)
    return sep.join(parts)


def s_fstr(*parts):
    from .shims import SymStr
    if any(type(p) is SymStr for p in parts):
        r = SymStr([])
        for p in parts:
            r = r + (p if type(p) is SymStr else format(p))
        return r
    return "".join([format(p) for p in parts])


_PLAIN = (set, frozenset, list, tuple, dict, type({}.keys()), type({}.values()))


def s_in(a, b):
    from .shims import SymStr
    ta = type(a)
    if ta in (SymInt, SymReal, SymBool):
        if type(b) is range and ta is SymInt:
            if not len(b):
                return False
            lo, hi = min(b[0], b[-1]), max(b[0], b[-1])
            import z3
            return SymBool(z3.And(a.e >= lo, a.e <= hi, (a.e - lo) % abs(b.step) == 0))
        if type(b) in _PLAIN:
            import z3
            es = []
            for x in b:
                if x is a:
                    return True
                r = a == x
                if is_sym(r):
                    es.append(to_bool_expr(r))
                elif r is True:
                    return True
            if not es:
                return False
            return SymBool(z3.simplify(z3.Or(*es)))
    elif ta is SymStr:
        if isinstance(b, str):
            return a in SymStr(SymStr.codes_of(b))
        if type(b) in _PLAIN:
            return any(x is a or bool(a == x) for x in b)
    return a in b


def s_not_in(a, b):
    r = s_in(a, b)
    return ~r if type(r) is SymBool else not r


def s_set(items):
    from .shims import SetShim
    return SetShim(items)


def _symbolic_key(k):
    if type(k) is tuple:
        return any(_symbolic_key(x) for x in k)
    return is_sym(k) or type(k).__name__ in ("SymStr", "SymBytes")


class SymDict(dict):
    """dictionary that tells its keys apart by comparison as soon as one of them is symbolic"""

    def __init__(self, it=()):
        super().__init__()
        self._pairs = None
        self._default = None
        for k, v in (it.items() if hasattr(it, "items") else it):
            self[k] = v

    def _mode(self, key):
        if self._pairs is None and _symbolic_key(key):
            self._pairs = [[k, dict.__getitem__(self, k)] for k in dict.keys(self)]
            dict.clear(self)
        return self._pairs is not None

    def _find(self, key):
        for p in self._pairs:
            if p[0] is key or bool(p[0] == key):
                return p
        return None

    def __setitem__(self, key, value):
        if not self._mode(key):
            return dict.__setitem__(self, key, value)
        p = self._find(key)
        if p is None:
            self._pairs.append([key, value])
        else:
            p[1] = value

    def __getitem__(self, key):
        if not self._mode(key):
            try:
                return dict.__getitem__(self, key)
            except KeyError:
                return self.__missing__(key)
        p = self._find(key)
        return p[1] if p is not None else self.__missing__(key)

    def __missing__(self, key):
        if self._default is None:
            raise KeyError(key)
        self[key] = v = self._default()
        return v

    def __delitem__(self, key):
        if not self._mode(key):
            return dict.__delitem__(self, key)
        p = self._find(key)
        if p is None:
            raise KeyError(key)
        self._pairs.remove(p)

    def __contains__(self, key):
        return self._find(key) is not None if self._mode(key) else dict.__contains__(self, key)

    def get(self, key, default=None):
        return self[key] if key in self else default

    def setdefault(self, key, default=None):
        if key not in self:
            self[key] = default
        return self[key]

    def pop(self, key, *default):
        if key not in self:
            if default:
                return default[0]
            raise KeyError(key)
        v = self[key]
        del self[key]
        return v

    def update(self, *a, **kw):
        for o in (*a, kw):
            for k, v in (o.items() if hasattr(o, "items") else o):
                self[k] = v

    def __iter__(self):
        return iter([p[0] for p in self._pairs]) if self._pairs is not None else dict.__iter__(self)

    def __len__(self):
        return len(self._pairs) if self._pairs is not None else dict.__len__(self)

    def keys(self):
        return [p[0] for p in self._pairs] if self._pairs is not None else dict.keys(self)

    def values(self):
        return [p[1] for p in self._pairs] if self._pairs is not None else dict.values(self)

    def items(self):
        return [tuple(p) for p in self._pairs] if self._pairs is not None else dict.items(self)

    def copy(self):
        r = type(self)(self)
        r._default = self._default
        return r

    def __eq__(self, o):
        if self._pairs is None and getattr(o, "_pairs", None) is None:
            return dict.__eq__(self, o)
        return len(self) == len(o) and all(k in o and bool(o[k] == v) for k, v in self.items())

    __hash__ = None

    def __repr__(self):
        return repr(dict(self.items())) if self._pairs is None else f"SymDict({self._pairs})"

    def __reduce__(self):
        return (dict, (dict(self.items()),))

    # counting
    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda p: p[1], reverse=True)
        return r if n is None else r[:n]

    def total(self):
        return sum(self.values())


def s_dict(*a):
    """dict(...), {} and {k: v for ..}: only kept as stand-in where a key may become symbolic"""
    return SymDict(*a)


def s_fromkeys(it, value=None):
    return SymDict((k, value) for k in it)


def s_counter(it=(), **kw):
    r = SymDict()
    r._default = int
    if hasattr(it, "items"):
        r.update(it)
    else:
        for x in it:
            r[x] = r[x] + 1
    r.update(kw)
    r._default = None
    r.__class__ = SymCounter
    return r


class SymCounter(SymDict):
    def __missing__(self, key):
        return 0

    def update(self, it=(), **kw):
        if hasattr(it, "items"):
            it = [k for k, n in it.items() for _ in range(n)]
        for x in it:
            self[x] = self[x] + 1


def s_defaultdict(factory=None, *a):
    r = SymDict(*a)
    r._default = factory
    return r


def s_import(x):
    from .shims import MODULE_SHIMS, NAME_SHIMS
    try:
        if x in MODULE_SHIMS:
            return MODULE_SHIMS[x]
    except Exception:
        return x
    return NAME_SHIMS.get(id(x), x) if callable(x) else x


def s_type(x, names):
    from .shims import SymBytes, SymStr
    t = type(x)
    kind = {SymInt: "int", SymReal: "float", SymBool: "bool", SymStr: "str", SymBytes: "bytes"}.get(t)
    if kind is not None:
        return names.get(kind, getattr(builtins, kind))
    if t.__module__ == "symx.arrays":
        return x.__class__ if t.__name__ == "SymVec" else t
    return t


def install(root, rewrite):
    plain_code = _be.SourceLoader.source_to_code

    def mine(path):
        return isinstance(path, str) and path.startswith(root + "/shepherd_")

    def source_to_code(self, data, path, *, _optimize=-1):
        if rewrite and mine(path):
            tree = ast.parse(data, path)
            tree = ast.fix_missing_locations(Rewriter().visit(tree))
            return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)
        return plain_code(self, data, path, _optimize=_optimize)

    plain_get = _be.SourceLoader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if mine(path):
            return self.source_to_code(self.get_data(path), path)
        return plain_get(self, fullname)

    _be.SourceLoader.source_to_code = source_to_code
    _be.SourceLoader.get_code = get_code
    if rewrite:
        builtins.__dict__.update({"__symx_join__": s_join, "__symx_fstr__": s_fstr, "__symx_in__": s_in, "__symx_not_in__": s_not_in,
                                  "__symx_set__": s_set, "__symx_type__": s_type, "__symx_import__": s_import, "__symx_dict__": s_dict,
                                  "__symx_fromkeys__": s_fromkeys, "__symx_Counter__": s_counter, "__symx_defaultdict__": s_defaultdict})
        import yaml
        for d in (yaml.SafeDumper, yaml.Dumper):
            d.add_representer(SymDict, lambda dumper, x: dumper.represent_dict(dict(x.items())))
