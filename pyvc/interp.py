"""Symbolic interpreter for the Python subset used by building3d.

Reads the functions from /repo's current source.  Dropped by extraction:
decorators (njit, property keeps its meaning), annotations, docstrings, logging
calls, `print`.  Everything else of a function body is executed as written.
"""
from __future__ import annotations

import ast
import operator
import os

import numpy as _np
import z3

from . import npmodel as npm
from . import tokens
from .engine import Ctx, PyRaise, Speculation
from .values import *  # noqa
from .values import _tb

REPO = os.environ.get("VERIF_REPO", "/repo")


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


UNDEF = object()


# --------------------------------------------------------------------------- program
class Module:
    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.ns = {}
        self.lazy = {}
        for node in self.tree.body:
            self._top(node)

    def _top(self, node):
        if isinstance(node, ast.FunctionDef):
            self.ns[node.name] = UserFunc(self, node, node.name)
        elif isinstance(node, ast.ClassDef):
            self.ns[node.name] = UserClass(self, node)
        elif isinstance(node, ast.Import):
            for a in node.names:
                nm = a.asname or a.name.split(".")[0]
                self.lazy[nm] = ("module", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(node, ast.ImportFrom):
            mod = node.module or ""
            if node.level:
                base = self.name.split(".")
                if not self.path.endswith("__init__.py"):
                    base = base[:-1]
                base = base[: len(base) - (node.level - 1)]
                mod = ".".join(base + ([mod] if mod else []))
            for a in node.names:
                self.lazy[a.asname or a.name] = ("from", mod, a.name)
        elif isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            self.lazy[node.targets[0].id] = ("expr", node.value)
        elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.value is not None:
            self.lazy[node.target.id] = ("expr", node.value)
        elif isinstance(node, (ast.If, ast.Try)):
            for ch in node.body:
                self._top(ch)

    def lookup(self, nm):
        if nm in self.ns:
            return self.ns[nm]
        if nm in self.lazy:
            k = self.lazy[nm]
            if k[0] == "module":
                v = self.prog.module_value(k[1])
            elif k[0] == "from":
                v = self.prog.import_from(k[1], k[2])
            else:
                # mutable module state: as at import at the start of each path
                st = ctx().ghost.setdefault("module state", {})
                if (self.name, nm) in st:
                    return st[self.name, nm]
                v = self.prog.interp.eval(k[1], Frame(None, self, {}))
                if isinstance(v, (PyDict, PyList, PySet)):
                    st[self.name, nm] = v
                    return v
            self.ns[nm] = v
            return v
        raise KeyError(nm)


class UserFunc:
    def __init__(self, module, node, qual, cls=None, closure=None):
        self.module, self.node, self.qual, self.cls = module, node, qual, cls
        self.closure = closure
        self.is_property = any(isinstance(d, ast.Name) and d.id == "property" for d in node.decorator_list) if hasattr(node, "decorator_list") else False
        self.is_static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(node, "decorator_list", []))
        self.is_class = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in getattr(node, "decorator_list", []))
        self.is_setter = any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in getattr(node, "decorator_list", []))
        self._gen = None

    @property
    def fq(self):
        return f"{self.module.name}:{self.qual}"

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))
        return self._gen

    def __repr__(self):
        return f"<func {self.fq}>"


def walk_own(fn):
    """nodes of a function body, not descending into nested defs/lambdas"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class UserClass:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.own = ({}, {}, {}, {})
        methods, props, setters, attrs = self.own
        self.bases = node.bases
        self.table = None
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                f = UserFunc(module, n, f"{node.name}.{n.name}", cls=self)
                if f.is_property:
                    props[n.name] = f
                elif f.is_setter:
                    setters[n.name] = f
                else:
                    methods[n.name] = f
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                attrs[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                attrs[n.target.id] = n.value

    def user_bases(self):
        out = []
        for b in self.bases:
            try:
                v = self.module.lookup(b.id) if isinstance(b, ast.Name) else None
            except KeyError:
                v = None
            if isinstance(v, UserClass):
                out.append(v)
        return out

    def foreign_base(self):
        us = self.user_bases()
        return len(us) < len([b for b in self.bases if not (isinstance(b, ast.Name) and b.id == "object")]) or any(b.foreign_base() for b in us)

    def members(self, k):
        """own and inherited methods / properties / setters / class attributes"""
        if self.table is None:
            t = ({}, {}, {}, {})
            names = [set().union(*self.own)]
            bs = self.user_bases()
            if len(bs) > 1:
                raise Unsupported("several base classes")
            for b in bs:
                for i in range(4):
                    t[i].update({n: v for n, v in b.members(i).items() if n not in names[0]})
            for i in range(4):
                t[i].update(self.own[i])
            self.table = t
        return self.table[k]

    methods = property(lambda self: self.members(0))
    props = property(lambda self: self.members(1))
    setters = property(lambda self: self.members(2))
    attrs = property(lambda self: self.members(3))

    def owner(self, nm):
        if any(nm in d for d in self.own):
            return self
        for b in self.user_bases():
            return b.owner(nm)
        return self

    def base_names(self, prog):
        out = []
        for b in self.bases:
            if isinstance(b, ast.Name):
                try:
                    v = self.module.lookup(b.id)
                except KeyError:
                    out.append(b.id)
                    continue
                if isinstance(v, UserClass):
                    out.append(v.name)
                    out += v.base_names(prog)
                elif isinstance(v, ExcClass):
                    out.append(v.name)
        return out

    def __repr__(self):
        return f"<class {self.name}>"


class SuperOf:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class ExcClass:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<exc {self.name}>"


BUILTIN_EXC = {
    "Exception": (),
    "ValueError": ("Exception",),
    "TypeError": ("Exception",),
    "KeyError": ("LookupError", "Exception"),
    "IndexError": ("LookupError", "Exception"),
    "RuntimeError": ("Exception",),
    "AssertionError": ("Exception",),
    "NotImplementedError": ("RuntimeError", "Exception"),
    "StopIteration": ("Exception",),
    "AttributeError": ("Exception",),
    "ZeroDivisionError": ("ArithmeticError", "Exception"),
    "FileNotFoundError": ("OSError", "Exception"),
    "FileExistsError": ("OSError", "Exception"),
    "OSError": ("Exception",),
}


class ExtModule:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class BoundMethod:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class DType:
    def __init__(self, kind):
        self.kind = kind


class Opaque:
    """value of an external entity nothing is known about"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<opaque {self.name}>"


class Frame:
    def __init__(self, func, module, loc, closure=None):
        self.func, self.module, self.loc, self.closure = func, module, loc, closure
        self.yields = None
        self.loop_ix = None
        self.cur_exc = None


# --------------------------------------------------------------------------- interpreter
class Program:
    """All repository modules, loaded on demand."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}
        self.interp = Interp(self)
        self.ext = {}  # (module, name) -> Builtin / value overriding an external entity

    def modpath(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def module(self, name):
        if name not in self.modules:
            p = self.modpath(name)
            if p is None:
                raise Unsupported(f"module {name} not in repository")
            self.modules[name] = Module(self, name, p)
        return self.modules[name]

    def module_value(self, name):
        if name.split(".")[0] == "building3d":
            return self.module(name)
        return ExtModule(name)

    def import_from(self, mod, nm):
        if mod.split(".")[0] == "building3d":
            if self.modpath(mod) is None:
                raise Unsupported(f"import of missing module {mod}")
            m = self.module(mod)
            try:
                return m.lookup(nm)
            except KeyError:
                if self.modpath(mod + "." + nm):
                    return self.module(mod + "." + nm)
                raise Unsupported(f"{mod}.{nm} not found")
        return self.interp.ext_attr(mod, nm)

    def find(self, fq):
        mod, qual = fq.split(":")
        if self.modpath(mod) is None:
            raise Unsupported(f"function {fq} not found")
        m = self.module(mod)
        parts = qual.split(".")
        try:
            v = m.lookup(parts[0])
        except KeyError:
            raise Unsupported(f"function {fq} not found")
        for p in parts[1:]:
            if p in v.methods:
                v = v.methods[p]
            elif p in v.props:
                v = v.props[p]
            else:
                raise Unsupported(f"function {fq} not found")
        return v


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.merge_bool = False  # evaluate plain and/or without forking
        self.contracts = {}  # fq -> callable(interp, func, bound_args) -> value  (modular call)
        self.loop_specs = {}  # fq -> {ordinal: LoopSpec}
        self.depth = 0
        self.max_unroll = 64
        self.steps = 0
        self.used_contracts = set()
        self.inlined = set()
        self.class_models = {}
        self.ext_models = {}  # "module.name" -> model of an external function, set by a contract
        self.rename = {}

    # ---- helpers
    @property
    def c(self) -> Ctx:
        return ctx()

    def truth(self, v):
        """truth value, forking if symbolic"""
        return self.c.decide(self.truth_term(v))

    def truth_term(self, v):
        if isinstance(v, (bool, SBool, _np.bool_)):
            return v if not isinstance(v, _np.bool_) else bool(v)
        if v is None:
            return False
        if isinstance(v, (int, float, str, _np.integer)):
            return bool(v)
        if isinstance(v, SInt):
            return v != 0
        if isinstance(v, SF):
            return (v != 0) | mkbool(v.nan)
        if isinstance(v, (tuple, list)):
            return len(v) > 0
        if isinstance(v, PyList):
            n = v.length()
            return n > 0
        if isinstance(v, PyDict):
            return v.length() > 0
        if isinstance(v, PySet):
            if v.items is not None:
                return len(self.set_items(v)) > 0
            if v.n is not None:
                return v.n > 0
            raise Unsupported("truth of a symbolic set")
        if isinstance(v, CArr):
            if v.a.size == 1:
                return self.truth_term(v.a.flat[0])
            self.c.raise_exc("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, SStr):
            return v != ""
        if isinstance(v, (Obj, SRef, UserClass, UserFunc, Builtin, BoundMethod)):
            return True
        if hasattr(v, "_vc_truth"):
            return v._vc_truth(self)
        raise Unsupported(f"truth of {type(v).__name__}")

    # ---- calling
    def call_fq(self, fq, args, kwargs=None):
        return self.call(self.prog.find(fq), list(args), dict(kwargs or {}))

    def bind(self, func, args, kwargs):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        for i, nm in enumerate(names):
            if i < len(args):
                loc[nm] = args[i]
        extra = args[len(names):]
        if a.vararg:
            loc[a.vararg.arg] = tuple(extra)
        elif extra:
            self.c.raise_exc("TypeError", "too many arguments")
        kw = dict(kwargs)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm in kw:
                if nm in loc:
                    self.c.raise_exc("TypeError", f"multiple values for {nm}")
                loc[nm] = kw.pop(nm)
        if a.kwarg:
            loc[a.kwarg.arg] = PyDict(dict(kw))
        elif kw:
            self.c.raise_exc("TypeError", f"unexpected keyword {list(kw)}")
        defs = a.defaults
        dn = names[len(names) - len(defs):]
        fr = Frame(func, func.module, {}, func.closure)
        for nm, d in zip(dn, defs):
            if nm not in loc:
                loc[nm] = self.eval(d, fr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in loc and d is not None:
                loc[x.arg] = self.eval(d, fr)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in loc:
                self.c.raise_exc("TypeError", f"missing argument {nm}")
        return loc

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Builtin):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, BoundMethod):
            return self.call(f.fn, [f.obj] + list(args), kwargs)
        if isinstance(f, UserFunc):
            ct = self.contracts.get(f.fq)
            if ct is not None:
                loc = self.bind(f, args, kwargs)
                self.used_contracts.add(f.fq)
                return ct(self, f, loc)
            return self.call_inline(f, args, kwargs)
        if isinstance(f, UserClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExcClass):
            return ExcValue(f.name, tuple(args))
        if isinstance(f, DType):
            v = args[0] if args else 0
            return npm.cast_elem(v, f.kind)
        if isinstance(f, NTClass):
            loc = {}
            for nm, v in zip(f.fields, args):
                loc[nm] = v
            loc.update(kwargs)
            return NTValue(f, tuple(loc[x] for x in f.fields))
        raise Unsupported(f"call of {f!r}")

    def call_inline(self, f, args, kwargs=None):
        loc = self.bind(f, args, kwargs or {})
        if self.depth > 40:
            raise Unsupported("call depth")
        self.inlined.add(f.fq)
        fr = Frame(f, f.module, loc, f.closure)
        return self.run_frame(f, fr)

    def run_frame(self, f, fr):
        self.depth += 1
        saved = self.c.where
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if f.is_generator:
                fr.yields = []
            try:
                self.exec_block(f.node.body, fr)
                rv = None
            except ReturnEx as r:
                rv = r.v
            if f.is_generator:
                return PyList(fr.yields)
            return rv
        finally:
            self.depth -= 1
            self.c.where = saved

    def instantiate(self, cls, args, kwargs):
        bn = cls.base_names(self.prog)
        if any(b in BUILTIN_EXC for b in bn) or cls.name.endswith("Error"):
            return ExcValue(cls.name, tuple(args), tuple(bn))
        model = self.class_models.get(cls.name)
        if model is not None:
            return model(self, cls, args, kwargs)
        if any(isinstance(b, ast.Name) and b.id == "dict" for b in cls.bases) and "__init__" not in cls.methods:
            from . import externals as ex

            if set(cls.methods) - {"__missing__"}:
                raise Unsupported(f"dict subclass {cls.name}")
            d = ex.b_dict(self, *args, **kwargs)
            m = cls.methods.get("__missing__")
            if m is not None:
                d.missing = lambda I, d, k: I.call(m, [d, k])
            return d
        if any(isinstance(d, (ast.Name, ast.Call)) and "dataclass" in ast.unparse(d) for d in cls.node.decorator_list):
            raise Unsupported("dataclass")
        o = Obj(cls)
        init = cls.methods.get("__init__")
        if init:
            self.call(init, [o] + list(args), kwargs)
        return o

    # ---- attribute access
    def class_attr(self, cls, nm):
        """attribute of a class: one value for all its objects"""
        d = self.c.ghost.setdefault("class state", {})
        cls = cls.owner(nm)
        key = (cls.module.name, cls.name, nm)
        if key not in d:
            d[key] = self.eval(cls.attrs[nm], Frame(None, cls.module, {}))
        return d[key]

    def getattr(self, o, nm):
        c = self.c
        if isinstance(o, Obj):
            if nm in o.f:
                return o.f[nm]
            if nm in o.cls.props:
                return self.call(o.cls.props[nm], [o])
            if nm in o.cls.methods:
                m = o.cls.methods[nm]
                return m if m.is_static else BoundMethod(o.cls if m.is_class else o, m)
            if nm in o.cls.attrs:
                return self.class_attr(o.cls, nm)
            if nm == "__dict__" or nm == "__class__":
                raise Unsupported(nm)
            if getattr(o, "partial", False):
                raise Unsupported(f"field {o.cls.name}.{nm} has no model")
            if o.cls.foreign_base():
                raise Unsupported(f"inherited field {o.cls.name}.{nm}")
            c.raise_exc("AttributeError", nm)
        if isinstance(o, SRef):
            key = (o.cls, nm)
            if key in c.heap:
                return c.heap[key](o.t)
            cls = self.find_class(o.cls)
            if cls is not None:
                if nm in cls.props:
                    return self.call(cls.props[nm], [o])
                if nm in cls.methods:
                    return BoundMethod(o, cls.methods[nm])
            raise Unsupported(f"field {o.cls}.{nm} has no model")
        if isinstance(o, Module):
            try:
                return o.lookup(nm)
            except KeyError:
                if self.prog.modpath(o.name + "." + nm):
                    return self.prog.module(o.name + "." + nm)
                raise Unsupported(f"{o.name}.{nm}")
        if isinstance(o, ExtModule):
            return self.ext_attr(o.name, nm)
        if isinstance(o, (CArr, LArr)):
            return self.arr_attr(o, nm)
        if isinstance(o, UserClass):
            if nm in o.methods:
                return BoundMethod(o, o.methods[nm]) if o.methods[nm].is_class else o.methods[nm]
            if nm in o.attrs:
                return self.class_attr(o, nm)
            if nm == "__name__":
                return o.name
            raise Unsupported(f"class attribute {nm}")
        if isinstance(o, NTValue):
            if nm in o.cls.fields:
                return o.vals[o.cls.fields.index(nm)]
        if isinstance(o, Opaque):
            return Opaque(f"{o.name}.{nm}")
        if isinstance(o, ExcValue):
            if nm == "args":
                return o.args
        if isinstance(o, SuperOf):
            if nm in o.cls.props:
                return self.call(o.cls.props[nm], [o.obj])
            if nm in o.cls.methods:
                return BoundMethod(o.obj, o.cls.methods[nm])
            raise Unsupported(f"super().{nm}")
        h = getattr(o, "_vc_attr", None)
        if h is not None:
            return h(self, nm)
        m = self.method_of(o, nm)
        if m is not None:
            return m
        raise Unsupported(f"attribute {nm} of {type(o).__name__}")

    def find_class(self, name):
        for m in list(self.prog.modules.values()):
            v = m.ns.get(name)
            if isinstance(v, UserClass):
                return v
        return None

    def setattr(self, o, nm, v):
        if isinstance(o, Obj):
            if nm in o.cls.setters:
                self.call(o.cls.setters[nm], [o, v])
                return
            if nm in o.cls.props and nm not in o.cls.setters:
                self.c.raise_exc("AttributeError", f"can't set {nm}")
            self.c.note_write(o)
            o.f[nm] = v
            return
        if isinstance(o, SRef):
            cls = self.find_class(o.cls)
            if cls is not None and nm in cls.setters:
                self.call(cls.setters[nm], [o, v])
                return
            key = (o.cls, nm)
            old = self.c.heap.get(key)
            if old is None:
                raise Unsupported(f"write to unmodelled field {key}")
            self.c.note_write(key)
            r = o.t
            self.c.heap[key] = lambda t, old=old, r=r, v=v: vite(t == r, v, old(t)) if not t.eq(r) else v
            return
        if isinstance(o, Opaque):
            return
        h = getattr(o, "_vc_setattr", None)
        if h is not None:
            return h(self, nm, v)
        raise Unsupported(f"setattr on {type(o).__name__}")

    def arr_attr(self, a, nm):
        if nm == "shape":
            return tuple(a.shape)
        if nm == "T":
            return npm.transpose(a)
        if nm == "size":
            r = 1
            for d in a.shape:
                r = r * d
            return r
        if nm == "ndim":
            return a.ndim
        if nm == "dtype":
            return DType(a.kind)
        B = lambda fn: Builtin(nm, fn)
        if nm == "copy":
            return B(lambda I: a.copy())
        if nm == "all":
            return B(lambda I, axis=None: npm.arr_all(a) if axis is None else _axis_bool(a, axis, True))
        if nm == "any":
            return B(lambda I, axis=None: npm.arr_any(a) if axis is None else _axis_bool(a, axis, False))
        if nm == "min":
            return B(lambda I, axis=None: npm.arr_minmax(a, True, axis))
        if nm == "max":
            return B(lambda I, axis=None: npm.arr_minmax(a, False, axis))
        if nm == "sum":
            return B(lambda I, axis=None: npm.arr_sum(a, axis))
        if nm == "mean":
            def mean(I, axis=None):
                s = npm.arr_sum(a, axis)
                n = a.shape[axis] if axis is not None else I.getattr(a, "size")
                return s / (n if isinstance(n, int) else as_sf(n))
            return B(mean)
        if nm == "dot":
            return B(lambda I, o: npm.np_dot(a, o))
        if nm == "reshape":
            return B(lambda I, *s: npm.reshape(a, s[0] if len(s) == 1 else s))
        if nm == "astype":
            return B(lambda I, d: npm.astype(a.copy(), self.dtype_kind(d)))
        if nm == "tolist":
            return B(lambda I: _tolist(a))
        if nm == "ravel" or nm == "flatten":
            return B(lambda I, order="C": CArr(a.a.flatten(order), a.kind) if isinstance(a, CArr) and order in ("C", "F") else _unsup("flatten"))
        if nm == "round":
            return B(lambda I, d=0: npm.np_round(a, d))
        if nm == "fill":
            def fill(I, v):
                npm.setitem(a, slice(None), v)
            return B(fill)
        raise Unsupported(f"array attribute {nm}")

    def dtype_kind(self, d):
        if d is None:
            return None
        if isinstance(d, DType):
            return d.kind
        if isinstance(d, Builtin) and d.name in ("float", "int", "bool"):
            return {"float": "f", "int": "i", "bool": "b"}[d.name]
        if isinstance(d, str):
            return "f" if d.startswith("f") else "i"
        raise Unsupported(f"dtype {d!r}")

    # ---- containers: methods
    def method_of(self, o, nm):
        from . import containers as ct

        return ct.method(self, o, nm)

    # ---- external entities
    def ext_attr(self, mod, nm):
        from . import externals as ex

        h = self.ext_models.get(f"{mod}.{nm}")
        if h is not None:
            return Builtin(nm, h)

        return ex.attr(self, mod, nm)

    # ---- names
    def lookup(self, nm, fr):
        if nm in fr.loc:
            v = fr.loc[nm]
            if v is UNDEF:
                raise Unsupported(f"variable {nm} may be undefined here")
            return v
        cl = fr.closure
        while cl is not None:
            if nm in cl.loc:
                return cl.loc[nm]
            cl = cl.closure
        try:
            v = fr.module.lookup(nm)
            if isinstance(v, (PyDict, PyList, PySet)):
                key = ("global", fr.module.name, nm)
                if key not in self.c.memo:
                    self.c.memo[key] = v
                return self.c.memo[key]
            return v
        except KeyError:
            pass
        from . import externals as ex

        return ex.builtin(self, nm)

    # ---- statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.steps += 1
        if self.steps > 3_000_000:
            raise Unsupported("step limit")
        self.c.where = f"{fr.func.fq if fr.func else fr.module.name}:{getattr(st, 'lineno', 0)}"
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        return m(st, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Import(self, st, fr):
        for a in st.names:
            fr.loc[a.asname or a.name.split(".")[0]] = self.prog.module_value(a.name if a.asname else a.name.split(".")[0])

    def x_ImportFrom(self, st, fr):
        for a in st.names:
            fr.loc[a.asname or a.name] = self.prog.import_from(st.module, a.name)

    def x_Global(self, st, fr):
        raise Unsupported("global statement")

    def x_FunctionDef(self, st, fr):
        fr.loc[st.name] = UserFunc(fr.module, st, (fr.func.qual + "." if fr.func else "") + st.name, closure=fr)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Call) and self.is_noise(st.value, fr):
            return
        self.eval(st.value, fr)

    def is_noise(self, call, fr):
        """logging and printing have no effect on the verified state"""
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            if f.value.id in ("logger", "log", "logging"):
                return True
        if isinstance(f, ast.Name) and f.id in ("print", "jit_print") and f.id not in fr.loc:
            return True
        return False

    def x_Assert(self, st, fr):
        v = self.eval(st.test, fr)
        if not self.truth(v):
            self.c.raise_exc("AssertionError", bases=("Exception",))

    def x_Return(self, st, fr):
        raise ReturnEx(self.eval(st.value, fr) if st.value is not None else None)

    def x_Break(self, st, fr):
        raise BreakEx()

    def x_Continue(self, st, fr):
        raise ContinueEx()

    def x_Raise(self, st, fr):
        if st.exc is None:
            if fr.cur_exc is not None:
                raise fr.cur_exc
            raise Unsupported("bare raise")
        e = st.exc
        if isinstance(e, ast.Call):
            f = self.eval(e.func, fr)
            nm, bases = self.exc_of(f)
            raise PyRaise(nm, (), bases)
        v = self.eval(e, fr)
        if isinstance(v, ExcValue):
            raise PyRaise(v.name, v.args, v.bases)
        nm, bases = self.exc_of(v)
        raise PyRaise(nm, (), bases)

    def exc_of(self, f):
        if isinstance(f, ExcClass):
            return f.name, BUILTIN_EXC.get(f.name, ("Exception",))
        if isinstance(f, UserClass):
            return f.name, tuple(f.base_names(self.prog)) + ("Exception",)
        raise Unsupported(f"raise of {f!r}")

    def x_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        op = self.operator(st.op)
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            v = self.eval(st.value, fr)
            fr.loc[t.id] = self.aug(op, old, v)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr)
            key = self.eval_key(t.slice, fr)
            old = self.subscript(base, key)
            v = self.eval(st.value, fr)
            self.store_sub(base, key, self.aug(op, old, v, inplace=False))
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, fr)
            old = self.getattr(base, t.attr)
            self.setattr(base, t.attr, self.aug(op, old, self.eval(st.value, fr)))
        else:
            raise Unsupported("augmented target")

    def aug(self, op, old, v, inplace=True):
        if isinstance(old, (CArr, LArr)) and inplace:
            # numpy in-place operation mutates the array object
            r = npm.elementwise(op, old, v)
            if isinstance(old, CArr):
                if old.ro:
                    raise Unsupported("in-place update through a view copy")
                if not isinstance(r, CArr) or r.a.shape != old.a.shape:
                    self.c.raise_exc("ValueError", "non-broadcastable output")
                self.c.note_write(old)
                for i in _np.ndindex(old.a.shape):
                    old.a[i] = npm.cast_elem(r.a[i], old.kind)
            else:
                g = r.snapshot() if isinstance(r, LArr) else None
                if g is None:
                    raise Unsupported("in-place op shape")
                k = old.kind
                old.replace(lambda idx: npm.cast_elem(g(idx), k))
            return old
        if isinstance(old, PyList) and op is operator.add:
            self.getattr(old, "extend").fn(self, v)
            return old
        if isinstance(old, PySet) and op is operator.or_:
            self.getattr(old, "update").fn(self, v)
            return old
        return self.binop(op, old, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, None if star else n)
            if star:
                i = star[0]
                after = n - i - 1
                if len(items) < n - 1:
                    self.c.raise_exc("ValueError", "not enough values to unpack")
                vals = items[:i] + [PyList(items[i : len(items) - after])] + items[len(items) - after :]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
            else:
                if len(items) != n:
                    self.c.raise_exc("ValueError", "wrong number of values to unpack")
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr)
            key = self.eval_key(t.slice, fr)
            self.store_sub(base, key, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n=None):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, NTValue):
            return list(v.vals)
        if isinstance(v, PyList):
            if v.items is not None:
                return list(v.items)
            if n is not None:
                self.c.side("unpacked sequence has the expected length", it(v.n) == n)
                return [v.get(i) for i in range(n)]
        if isinstance(v, CArr):
            return [npm.getitem(v, i) for i in range(v.a.shape[0])]
        if isinstance(v, LArr) and n is not None:
            self.c.side("unpacked array has the expected length", it(v.shape[0]) == n)
            return [npm.getitem(v, i) for i in range(n)]
        seq = self.iterate(v)
        if isinstance(seq[0], int):
            return [seq[1](i) for i in range(seq[0])]
        raise Unsupported(f"unpack {type(v).__name__}")

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value, fr)
                key = self.eval_key(t.slice, fr)
                from . import containers as ct

                ct.delitem(self, base, key)
            elif isinstance(t, ast.Name):
                del fr.loc[t.id]
            else:
                raise Unsupported("del target")

    def x_With(self, st, fr):
        for item in st.items:
            v = self.eval(item.context_expr, fr)
            h = getattr(v, "_vc_enter", None)
            if h is not None:
                v = h(self)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
        self.exec_block(st.body, fr)
        for item in st.items:
            pass

    def x_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if self.exc_match(h.type, e, fr):
                        if h.name:
                            fr.loc[h.name] = ExcValue(e.name, e.args_, e.bases)
                        saved, fr.cur_exc = fr.cur_exc, e
                        self.exec_block(h.body, fr)
                        fr.cur_exc = saved
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        finally:
            if st.finalbody:
                import sys

                et = sys.exc_info()[0]
                if et is None or et in (PyRaise, ReturnEx, BreakEx, ContinueEx):
                    self.exec_block(st.finalbody, fr)

    def exc_match(self, t, e, fr):
        if t is None:
            return True
        ts = [self.eval(x, fr) for x in t.elts] if isinstance(t, ast.Tuple) else [self.eval(t, fr)]
        for x in ts:
            if x.name == e.name or x.name in e.bases or x.name in BUILTIN_EXC.get(e.name, ()) or x.name == "BaseException":
                return True
            if x.name == "Exception":
                return True
        return False

    # ---- loops
    def x_For(self, st, fr):
        it_ = self.eval(st.iter, fr)
        n, get = self.iterate(it_)
        if isinstance(n, int):
            spec = self.find_spec(st, fr)
            if spec is not None and spec.cut:
                return self.sym_loop(st, fr, n, get, spec)
            if n > 4096:
                raise Unsupported("very long concrete loop")
            try:
                k = 0
                while True:
                    # lists may grow while being iterated
                    cur = self.live_len(it_, n)
                    if k >= cur:
                        break
                    self.assign(st.target, get(k), fr)
                    k += 1
                    try:
                        self.exec_block(st.body, fr)
                    except ContinueEx:
                        pass
            except BreakEx:
                return
            self.exec_block(st.orelse, fr)
            return
        self.sym_loop(st, fr, n, get)

    def live_len(self, itv, n):
        if isinstance(itv, PyList) and itv.items is not None:
            return len(itv.items)
        return n

    def x_While(self, st, fr):
        spec = self.find_spec(st, fr)
        if spec is None:
            k = 0
            try:
                while True:
                    if not self.truth(self.eval(st.test, fr)):
                        break
                    k += 1
                    if k > self.max_unroll:
                        raise Unsupported("while loop without invariant exceeds the unrolling limit")
                    try:
                        self.exec_block(st.body, fr)
                    except ContinueEx:
                        pass
            except BreakEx:
                return
            self.exec_block(st.orelse, fr)
            return
        self.sym_loop(st, fr, None, None, spec)

    def find_spec(self, st, fr):
        if fr.func is None:
            return None
        specs = self.loop_specs.get(fr.func.fq)
        if not specs:
            return None
        loops = loops_of(fr.func.node)
        ix = [i for i, n in enumerate(loops) if n is st]
        if not ix:
            return None
        want = specs.get("n")
        if want is not None and want != len(loops):
            raise Unsupported(f"{fr.func.fq} has {len(loops)} loops, contract written for {want}")
        return specs.get(ix[0])

    def sym_loop(self, st, fr, n, get, spec=None):
        c = self.c
        if spec is None:
            spec = self.find_spec(st, fr)
        if spec is None:
            raise Unsupported(f"loop over a symbolic range without invariant at {c.where}")
        where = c.where
        c.run.loops_cut = True
        pre = EnvView(self, fr, snapshot=True)
        mods = assigned_names(st) | set(spec.extra_mods)
        mutated = mutated_names(st) | set(spec.mutates)
        mods -= set(spec.keep)
        mutated -= set(spec.keep)
        S = spec.S

        def inv(k, label):
            env = EnvView(self, fr)
            c.spec_mode = True
            try:
                return spec.inv(S, env, k, pre)
            finally:
                c.spec_mode = False

        # 1. invariant holds on entry
        lname = spec.name or f"loop@{where.split(':')[-1]}"
        for nm, p in inv(0 if n is not None or True else 0, "entry"):
            c.prove(f"{lname} invariant on entry: {nm}", p, kind="inv")
        prex = reachable_ids(fr, c)
        branch = c.choose(2)
        # 2. havoc
        havoced = set()
        shapes = {}
        for nm in sorted(mutated):
            if nm in fr.loc and fr.loc[nm] is not UNDEF:
                self.havoc_object(fr.loc[nm], nm, spec, havoced)
        for nm in sorted(mods):
            if nm in fr.loc and nm not in mutated or nm in spec.fresh:
                known = dict(c.counter)
                fr.loc[nm] = self.havoc_value(nm, fr.loc.get(nm, UNDEF), spec, fr, pre)
                if nm in spec.fresh and isinstance(fr.loc[nm], (CArr, LArr)):
                    shapes[nm] = [None if fresh_const(d, known) else d for d in fr.loc[nm].shape]
            elif nm not in fr.loc:
                fr.loc[nm] = UNDEF
        for nm in shapes:
            if nm not in spec.first and nm in pre._d:
                self.check_shape(lname, "on entry", nm, pre._d[nm], shapes[nm])
        for key, build in spec.heap_fresh.items():
            c.heap[key] = build(S)
            havoced.add(("heap",) + tuple(key))
        k = c.fresh_int("k")
        c.assume(k.t >= 0)
        if n is not None:
            c.assume(k.t <= it(n))
        wmark = len(c.writes)
        if branch == 0:
            # 3. arbitrary iteration
            if n is not None:
                c.assume(k.t < it(n))
            for nm, p in inv(k, "assume"):
                c.assume(p)
            self.restore_first(spec, k, fr, pre)
            if n is not None:
                self.assign(st.target, get(k), fr)
            else:
                if not self.truth(self.eval(st.test, fr)):
                    raise PathEnd()
            if spec.start:
                spec.start(S, EnvView(self, fr), k)
            dec0 = spec.decreases(S, EnvView(self, fr), k) if spec.decreases else None
            if n is None and dec0 is not None:
                c.prove(f"{lname} measure is non-negative", dec0 >= 0, kind="inv")
            try:
                self.exec_block(st.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                self.check_frame(wmark, prex, havoced, where)
                return
            self.check_frame(wmark, prex, havoced, where)
            c.where = where
            for nm, p in inv(k + 1, "preserve"):
                c.prove(f"{lname} invariant preserved: {nm}", p, kind="inv")
            if n is None and dec0 is not None:
                d1 = spec.decreases(S, EnvView(self, fr), k + 1)
                c.prove(f"{lname} measure decreases", d1 < dec0, kind="inv")
            self.check_types(mods, fr, pre, spec, where)
            for nm in shapes:
                self.check_shape(lname, "preserved", nm, fr.loc.get(nm, UNDEF), shapes[nm])
            raise PathEnd()
        # 4. after the loop
        if n is not None:
            c.assume(k.t == it(n))
            nk = n
        else:
            nk = k
        for nm, p in inv(nk, "assume"):
            c.assume(p)
        self.restore_first(spec, nk, fr, pre)
        if n is None:
            if self.truth(self.eval(st.test, fr)):
                raise PathEnd()
        else:
            # loop target after the loop: last element if any
            for nm in target_names(st.target):
                if nm not in spec.fresh:
                    fr.loc[nm] = UNDEF
        self.exec_block(st.orelse, fr)

    def check_shape(self, lname, when, nm, v, shape):
        """an array taken to be of a given shape in the loop must have it"""
        if v is UNDEF:
            return
        if not isinstance(v, (CArr, LArr)) or v.ndim != len(shape):
            raise Unsupported(f"{nm} is not an array of the rank expected by the contract")
        for x, y in zip(v.shape, shape):
            if y is not None and x is not y:
                self.c.prove(f"{lname} invariant {when}: shape of {nm}", veq(x, y), kind="inv")

    def restore_first(self, spec, k, fr, pre):
        """before the first iteration these variables are as they were before the loop"""
        if spec.first and self.truth(self.equal(k, 0)):
            for nm in spec.first:
                fr.loc[nm] = snap(pre._d[nm])

    def check_types(self, mods, fr, pre, spec, where):
        """havoced floats are assumed finite: this must be re-established"""
        c = self.c
        for nm in mods:
            v = fr.loc.get(nm, UNDEF)
            if v is UNDEF or nm in spec.fresh:
                continue
            o = pre._d.get(nm, UNDEF)
            if isinstance(o, (CArr, LArr)) and isinstance(v, (CArr, LArr)):
                # havoc keeps the shape
                so_, sv = (x.a.shape if isinstance(x, CArr) else x.shape for x in (o, v))
                if len(so_) != len(sv):
                    raise Unsupported(f"{nm} changes its number of dimensions in a loop")
                for x, y in zip(so_, sv):
                    if x is not y:
                        c.prove(f"{nm} keeps its shape", veq(x, y), kind="inv")
            elif o is not UNDEF and _kind(o) != _kind(v):
                raise Unsupported(f"{nm} changes its type in a loop")
            for x in _floats(v):
                bad = zor(x.nan, x.inf if nm not in spec.maybe_inf else False)
                if bad is not False and o is not UNDEF:
                    c.prove(f"{nm} stays finite", znot(bad), kind="inv")

    def check_frame(self, mark, prex, havoced, where):
        for o in self.c.writes[mark:]:
            if isinstance(o, tuple):
                if ("heap",) + o not in havoced:
                    raise Unsupported(f"loop at {where} writes heap field {o} without a declared invariant")
                continue
            rid = root_id(o)
            if rid in prex and rid not in havoced:
                raise Unsupported(f"loop at {where} writes an undeclared object ({type(o).__name__})")

    def havoc_value(self, nm, old, spec, fr, pre):
        c = self.c
        if nm in spec.fresh:
            return spec.fresh[nm](spec.S, pre)
        if old is UNDEF:
            return UNDEF
        if isinstance(old, (bool, SBool)):
            return c.fresh_bool(nm)
        if is_int(old):
            return c.fresh_int(nm)
        if is_float(old):
            x = c.fresh_real(nm)
            o = as_sf(old)
            if nm in spec.maybe_inf or o.inf is not False:
                spec.maybe_inf.add(nm)
                return SF(x.t, False, c.fresh_bool(nm + "_inf").t)
            return x
        if isinstance(old, CArr):
            out = _np.empty(old.a.shape, dtype=object)
            for i in _np.ndindex(old.a.shape):
                out[i] = self.havoc_value(nm, old.a[i] if old.kind != "f" else 0.0, spec_none(spec), fr, pre)
            return CArr(out, old.kind)
        if isinstance(old, LArr):
            return fresh_larr(c, nm, old.shape, old.kind)
        if isinstance(old, tuple):
            return tuple(self.havoc_value(nm, x, spec, fr, pre) for x in old)
        if isinstance(old, (str, SStr)):
            return c.fresh_str(nm)
        raise Unsupported(f"cannot havoc {nm}: {type(old).__name__}")

    def havoc_object(self, o, nm, spec, havoced):
        c = self.c
        havoced.add(root_id(o))
        if nm in spec.fresh:
            spec.fresh[nm](spec.S, o)  # in-place builder
            return
        if getattr(o, "_vc_immutable", False):
            return
        if isinstance(o, CArr):
            c.note_write(o)
            for i in _np.ndindex(o.a.shape):
                o.a[i] = c.fresh_real(nm) if o.kind == "f" else (c.fresh_int(nm) if o.kind == "i" else c.fresh_bool(nm))
            return
        if isinstance(o, LArr):
            if o.base is not None:
                raise Unsupported("havoc of a view")
            f = fresh_larr(c, nm, o.shape, o.kind)
            o.replace(f._get)
            return
        raise Unsupported(f"loop mutates {nm} ({type(o).__name__}) but the contract gives no abstraction")

    # ---- iteration protocol
    def iterate(self, v):
        from . import containers as ct

        return ct.iterate(self, v)

    # ---- expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return PyList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        s = PySet([])
        for x in self.elts(e.elts, fr):
            self.getattr(s, "add").fn(self, x)
        return s

    def elts(self, xs, fr):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out += self.unpack(self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = PyDict({})
        from . import containers as ct

        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, fr)
                for kk, vv in src.d.items():
                    ct.dict_set(self, d, kk, vv)
            else:
                ct.dict_set(self, d, self.eval(k, fr), self.eval(v, fr))
        return d

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.subscript(self.eval(e.value, fr), self.eval_key(e.slice, fr))

    def eval_key(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: self.eval(x, fr) if x is not None else None
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_key(x, fr) for x in s.elts)
        return self.eval(s, fr)

    e_Slice = eval_key

    def subscript(self, base, key):
        from . import containers as ct

        if isinstance(base, (CArr, LArr)):
            return npm.getitem(base, key)
        return ct.getitem(self, base, key)

    def store_sub(self, base, key, v):
        from . import containers as ct

        if isinstance(base, (CArr, LArr)):
            return npm.setitem(base, key, v)
        return ct.setitem(self, base, key, v)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(self.operator(e.op), a, b)

    def operator(self, op):
        f = BINOPS.get(type(op))
        if f is None:
            raise Unsupported(f"operator {type(op).__name__}")
        return f

    def binop(self, op, a, b):
        if op is operator.matmul:
            if isinstance(a, (CArr, LArr)) and isinstance(b, (CArr, LArr)):
                return npm.np_dot(a, b)
            raise Unsupported("@")
        if isinstance(a, Obj) and not getattr(a, "_vc_binop", None):
            m = a.cls.methods.get(DUNDER.get(op))
            if m is not None:
                return self.call(m, [a, b])
            raise Unsupported(f"operator on {a.cls.name}")
        if isinstance(a, PyList) and isinstance(b, PyList) and op is operator.add:
            if a.items is not None and b.items is not None:
                return PyList(a.items + b.items)
            n1, g1 = a.to_symbolic()
            n2, g2 = b.to_symbolic()
            return PyList(None, n1 + n2, lambda i: _cat(i, n1, g1, g2))
        if op is operator.mul and isinstance(a, PyList) and is_int(b):
            if a.items is not None and isinstance(b, int):
                return PyList(a.items * b)
        if op is operator.mul and isinstance(b, PyList) and is_int(a):
            return self.binop(op, b, a)
        if isinstance(a, PySet) or isinstance(b, PySet):
            from . import containers as ct

            return ct.set_op(self, op, a, b)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and op is operator.add:
            from . import externals as ex

            return ex.str_concat(self, [a, b])
        if isinstance(a, str) and op is operator.mod:
            raise Unsupported("% formatting")
        h = getattr(a, "_vc_binop", None)
        if h is not None:
            return h(self, op, b)
        if isinstance(a, PyDict) and isinstance(b, PyDict) and op is operator.or_:
            return PyDict({**a.d, **b.d})
        if op is operator.truediv and is_num(a) and is_num(b) and not isinstance(a, SF) and not isinstance(b, SF):
            if isinstance(b, (int, float)) and b == 0:
                self.c.raise_exc("ZeroDivisionError", bases=("ArithmeticError",))
        try:
            r = op(num(a) if isinstance(a, SBool) and op not in (operator.and_, operator.or_) else a, b)
        except TypeError as ex_:
            raise Unsupported(f"operator on {type(a).__name__}, {type(b).__name__}: {ex_}")
        return r

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else ~t
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        if isinstance(v, bool):
            return not v
        return ~v

    def merged_bool(self, e, fr):
        """and/or of plain comparisons as one proposition, without a fork per operand; None if not possible"""
        if not all(isinstance(n, PLAIN) for n in ast.walk(e)):
            return None
        c, spec = self.c, self.c.speculative
        c.speculative = True
        try:
            vs = [self.eval(x, fr) for x in e.values]
        except (Speculation, PyRaise):
            return None
        finally:
            c.speculative = spec
        if not all(isinstance(v, (bool, SBool)) for v in vs):
            return None
        f = zand if isinstance(e.op, ast.And) else zor
        return mkbool(f(*[_tb(v) for v in vs]))

    def e_BoolOp(self, e, fr):
        if self.merge_bool:
            r = self.merged_bool(e, fr)
            if r is not None:
                return r
        isand = isinstance(e.op, ast.And)
        v = None
        acc = None  # accumulated proposition when evaluation is pure and boolean
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            last = i == len(e.values) - 1
            if last:
                return v
            if isinstance(v, SBool):
                t = self.c.decide(v)
                v = t
            else:
                t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            x = self.compare(op, left, right)
            if len(e.ops) == 1:
                return x
            res = mkbool(zand(_tb(res) if not isinstance(res, bool) else res, _tb(x)))
            left = right
        return res

    def compare(self, op, a, b):
        from . import containers as ct

        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            r = self.identical(a, b)
            if isinstance(op, ast.Is):
                return r
            return (not r) if isinstance(r, bool) else ~r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = ct.contains(self, b, a)
            if isinstance(op, ast.In):
                return r
            return (not r) if isinstance(r, bool) else ~r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if isinstance(op, ast.Eq):
                return r
            if isinstance(r, (CArr, LArr)):
                return npm.map1(lambda x: (not x) if isinstance(x, bool) else ~x, r)
            return (not r) if isinstance(r, bool) else ~r
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        if isinstance(a, PySet) or isinstance(b, PySet):
            return ct.set_cmp(self, f, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return ct.tuple_less(self, f, a, b)
        if isinstance(a, (str,)) and isinstance(b, str):
            if tokens.has(a) or tokens.has(b):
                raise Unsupported("order of texts with unknown parts")
            return f(a, b)
        if not (isinstance(a, (CArr, LArr)) or is_num(a)) or not (isinstance(b, (CArr, LArr)) or is_num(b)):
            raise Unsupported(f"ordering of {type(a).__name__} and {type(b).__name__}")
        if isinstance(a, (CArr, LArr)) or isinstance(b, (CArr, LArr)):
            return npm.elementwise(f, a, b)
        return f(num(a), num(b))

    def identical(self, a, b):
        if a is b:
            return True
        if isinstance(a, SRef) and isinstance(b, SRef):
            return mkbool(z3.simplify(a.t == b.t))
        if a is None or b is None:
            h = getattr(a if b is None else b, "_vc_isnone", None)
            if h is not None:
                return h
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, SBool) and isinstance(b, bool):
            return a if b else ~a
        if isinstance(a, (DType,)) and isinstance(b, DType):
            return a.kind == b.kind
        return False

    def equal(self, a, b):
        if isinstance(a, (CArr, LArr)) or isinstance(b, (CArr, LArr)):
            return npm.elementwise(operator.eq, a, b)
        if isinstance(a, Obj):
            m = a.cls.methods.get("__eq__")
            if m is not None:
                return self.call(m, [a, b])
            return a is b
        if isinstance(a, SRef):
            cls = self.find_class(a.cls)
            if cls is not None and "__eq__" in cls.methods:
                return self.call(cls.methods["__eq__"], [a, b])
            return self.identical(a, b)
        if isinstance(a, (PyList, PyDict, PySet)) or isinstance(b, (PyList, PyDict, PySet)):
            from . import containers as ct

            return ct.equal(self, a, b)
        if isinstance(a, NTValue) and isinstance(b, NTValue):
            return veq(a.vals, b.vals)
        if isinstance(a, tuple) and isinstance(b, tuple):
            from . import containers as ct

            return ct.equal(self, PyList(list(a)), PyList(list(b)))
        if is_num(a) and is_num(b):
            r = a == b if is_symbolic(a) else (b == a if is_symbolic(b) else bool(a == b))
            return r
        return veq(a, b) if type(a) is type(b) or is_num(a) or isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) else False

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_Lambda(self, e, fr):
        return UserFunc(fr.module, e, "<lambda>", closure=fr)

    def super_of(self, fr):
        bs = fr.func.cls.user_bases() if fr.func is not None and fr.func.cls is not None else []
        if len(bs) != 1:
            raise Unsupported("super")
        return SuperOf(fr.loc[fr.func.node.args.args[0].arg], bs[0])

    def e_Call(self, e, fr):
        if self.is_noise(e, fr):
            return None
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.super_of(fr)
        f = self.eval(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, PyDict) and d.d is not None:
                    kw.update(d.d)
                else:
                    raise Unsupported("** of symbolic dict")
            else:
                kw[k.arg] = self.eval(k.value, fr)
        w = self.c.where
        r = self.call(f, args, kw)
        self.c.where = w
        return r

    def e_JoinedStr(self, e, fr):
        from . import externals as ex

        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                fs = None
                if v.format_spec is not None:
                    fs = self.e_JoinedStr(v.format_spec, fr)
                parts.append(ex.to_str(self, x, fs, v.conversion))
        return ex.str_concat(self, parts)

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, "list")

    def e_SetComp(self, e, fr):
        return self.comp(e, fr, "set")

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, "list")

    def e_DictComp(self, e, fr):
        return self.comp(e, fr, "dict")

    def comp(self, e, fr, kind):
        from . import containers as ct

        sub = Frame(fr.func, fr.module, {}, None)
        sub.loc = dict(fr.loc)
        sub.closure = fr.closure
        out = []

        def rec(gi):
            if gi == len(e.generators):
                if kind == "dict":
                    out.append((self.eval(e.key, sub), self.eval(e.value, sub)))
                else:
                    out.append(self.eval(e.elt, sub))
                return
            g = e.generators[gi]
            n, get = self.iterate(self.eval(g.iter, sub))
            if not isinstance(n, int):
                raise _SymComp(n, get, g, gi)
            for k in range(n):
                self.assign(g.target, get(k), sub)
                if all(self.truth(self.eval(c_, sub)) for c_ in g.ifs):
                    rec(gi + 1)

        try:
            rec(0)
        except _SymComp as s:
            if len(e.generators) == 1 and not s.g.ifs and kind == "list":
                # the element for an arbitrary index, as it is now
                v = bv("k")
                self.c.binders.append((v, z3.And(v >= 0, v < it(s.n))))
                try:
                    self.assign(s.g.target, s.get(SInt(v)), sub)
                    x = self.eval(e.elt, sub)
                finally:
                    self.c.binders.pop()
                if isinstance(x, SInt):
                    return PyList(None, s.n, lambda i: mkint(z3.substitute(x.t, (v, it(i)))))
                if isinstance(x, SF) and x.plain:
                    return PyList(None, s.n, lambda i: SF(z3.substitute(x.t, (v, it(i)))))
            raise Unsupported("comprehension over a symbolic range")
        if kind == "list":
            return PyList(out)
        if kind == "set":
            st = PySet([])
            for x in out:
                self.getattr(st, "add").fn(self, x)
            return st
        d = PyDict({})
        for k, v in out:
            ct.dict_set(self, d, k, v)
        return d

    def e_Yield(self, e, fr):
        fr.yields.append(self.eval(e.value, fr) if e.value else None)

    def e_YieldFrom(self, e, fr):
        fr.yields += self.unpack(self.eval(e.value, fr))

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported("starred")


class _SymComp(Exception):
    def __init__(self, n, get, g, gi):
        self.n, self.get, self.g, self.gi = n, get, g, gi
        if gi != 0:
            raise Unsupported("nested comprehension over a symbolic range")


def _cat(i, n1, g1, g2):
    if isinstance(i, int) and isinstance(n1, int):
        return g1(i) if i < n1 else g2(i - n1)
    if isinstance(n1, int) and n1 == 0:
        return g2(i)
    return vite(it(i) < it(n1), g1(i), g2(i - n1))


def _axis_bool(a, axis, isall):
    if isinstance(a, CArr) and a.ndim == 2:
        f = npm.arr_all if isall else npm.arr_any
        if axis == 0:
            return npm.from_nested([f(CArr(a.a[:, j], "b")) for j in range(a.a.shape[1])], "b")
        return npm.from_nested([f(CArr(a.a[i], "b")) for i in range(a.a.shape[0])], "b")
    if isinstance(a, LArr) and a.ndim == 2 and axis in (1, -1) and isinstance(a.shape[1], int):
        g = a.snapshot()
        w = a.shape[1]
        f = zand if isall else zor
        return LArr((a.shape[0],), lambda idx: mkbool(f(*[_tb(g((idx[0], j))) for j in range(w)])), "b")
    raise Unsupported("all/any axis")


def _unsup(x):
    raise Unsupported(x)


def _tolist(a):
    if isinstance(a, CArr):
        if a.ndim == 1:
            return PyList(list(a.a))
        return PyList([_tolist(CArr(a.a[i], a.kind)) for i in range(a.a.shape[0])])
    g = a.snapshot()
    if a.ndim == 1:
        return PyList(None, a.shape[0], lambda i: g((i,)))
    sub = a.shape[1:]
    return PyList(None, a.shape[0], lambda i: _tolist(npm.materialise(LArr(sub, lambda idx: g((i,) + tuple(idx)), a.kind))))


class ExcValue:
    def __init__(self, name, args=(), bases=()):
        self.name, self.args, self.bases = name, args, bases


class NTClass:
    def __init__(self, name, fields):
        self.name, self.fields = name, list(fields)


class NTValue:
    def __init__(self, cls, vals):
        self.cls, self.vals = cls, tuple(vals)


DUNDER = {operator.add: "__add__", operator.sub: "__sub__", operator.mul: "__mul__", operator.truediv: "__truediv__"}
BINOPS = {
    ast.Add: operator.add,
    ast.Sub: operator.sub,
    ast.Mult: operator.mul,
    ast.Div: operator.truediv,
    ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod,
    ast.Pow: operator.pow,
    ast.BitAnd: operator.and_,
    ast.BitOr: operator.or_,
    ast.MatMult: operator.matmul,
}


# --------------------------------------------------------------------------- loop support
PLAIN = (ast.BoolOp, ast.And, ast.Or, ast.Compare, ast.cmpop, ast.Name, ast.Constant, ast.Subscript, ast.BinOp, ast.Add, ast.Sub, ast.Mult, ast.UnaryOp, ast.USub, ast.Not, ast.Load, ast.Tuple, ast.Attribute)


def _kind(v):
    """type of a value as far as `havoc_value` keeps it"""
    if isinstance(v, (bool, SBool)):
        return "bool"
    if is_int(v):
        return "int"
    if is_float(v):
        return "float"
    if isinstance(v, (str, SStr)):
        return "str"
    return type(v).__name__


def fresh_const(d, known):
    """is d a symbol made after the counters were at the given values?"""
    if not isinstance(d, SInt) or not z3.is_const(d.t) or d.t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return False
    base, _, k = d.t.decl().name().rpartition("!")
    return k.isdigit() and int(k) >= known.get(base, 0)


class LoopSpec:
    def __init__(self, inv, S=None, fresh=None, extra_mods=(), mutates=(), keep=(), decreases=None, maybe_inf=(), name=None, heap_fresh=None, cut=False, start=None, first=()):
        self.first = first  # variables of another shape before the first iteration
        self.inv = inv
        self.S = S
        self.fresh = fresh or {}
        self.extra_mods = extra_mods
        self.mutates = mutates
        self.keep = keep
        self.decreases = decreases
        self.maybe_inf = set(maybe_inf)
        self.name = name
        self.heap_fresh = heap_fresh or {}
        self.start = start  # (S, env, k): case splits at the start of an arbitrary iteration
        self.cut = cut  # cut the loop even when its length is known


def spec_none(spec):
    s = LoopSpec(None)
    return s


def loops_of(fn):
    """for/while statements of a function in source order (not nested functions)"""
    out = []

    def rec(body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(n, (ast.For, ast.While)):
                out.append(n)
            for f in ("body", "orelse", "finalbody"):
                rec(getattr(n, f, []) or [])
            for h in getattr(n, "handlers", []) or []:
                rec(h.body)

    rec(fn.body)
    return out


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def assigned_names(st):
    out = set()
    nodes = list(st.body) + list(st.orelse)
    if isinstance(st, ast.For):
        out |= target_names(st.target)
    for b in nodes:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
    return out


MUTATORS = {"append", "add", "pop", "extend", "insert", "remove", "update", "clear", "sort", "reverse", "discard", "setdefault", "popitem", "fill"}


def _root_name(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Call)):
        e = e.value if not isinstance(e, ast.Call) else e.func
    return e.id if isinstance(e, ast.Name) else None


def mutated_names(st):
    out = set()
    for b in list(st.body) + list(st.orelse):
        for n in ast.walk(b):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = _root_name(n)
                if r:
                    out.add(r)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript):
                r = _root_name(n.target)
                if r:
                    out.add(r)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                r = _root_name(n.func.value)
                if r:
                    out.add(r)
    return out


def root_id(o):
    if isinstance(o, CArr):
        a = o.a
        while a.base is not None:
            a = a.base
        return id(a)
    if isinstance(o, LArr) and o.base is not None:
        return root_id(o.base)
    return id(o)


def reachable_ids(fr, c):
    out = set()
    stack = list(fr.loc.values())
    cl = fr.closure
    while cl is not None:
        stack += list(cl.loc.values())
        cl = cl.closure
    keep = []
    while stack:
        v = stack.pop()
        if isinstance(v, (CArr, LArr, PyList, PyDict, PySet, Obj)):
            r = root_id(v)
            if r in out and not isinstance(v, (PyList, PyDict, Obj)):
                continue
            if id(v) in [id(x) for x in keep]:
                continue
            keep.append(v)
            out.add(r)
            if isinstance(v, PyList) and v.items is not None:
                stack += v.items
            elif isinstance(v, PyDict) and v.d is not None:
                stack += list(v.d.values())
            elif isinstance(v, Obj):
                stack += list(v.f.values())
        elif isinstance(v, (tuple, list)):
            stack += list(v)
    c.memo[("prex", len(c.memo))] = keep
    return out


def fresh_larr(c, nm, shape, kind):
    srt = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[kind]
    fn = c.fresh_fn(nm, *([z3.IntSort()] * len(shape)), srt)
    mk = {"f": SF, "i": SInt, "b": SBool}[kind]
    return LArr(shape, lambda idx: mk(fn(*[it(i) for i in idx])), kind)


def _floats(v):
    if isinstance(v, SF):
        yield v
    elif isinstance(v, float):
        yield as_sf(v)
    elif isinstance(v, CArr) and v.kind == "f":
        for x in v.a.flat:
            yield as_sf(x)
    elif isinstance(v, tuple):
        for x in v:
            yield from _floats(x)


class EnvView:
    """Attribute access to the variables of a frame (for loop invariants)."""

    def __init__(self, interp, fr, snapshot=False):
        object.__setattr__(self, "_i", interp)
        object.__setattr__(self, "_fr", fr)
        d = None
        if snapshot:
            d = {}
            for k, v in fr.loc.items():
                d[k] = snap(v)
        object.__setattr__(self, "_d", d)

    def names(self):
        return set(self._d if self._d is not None else self._fr.loc)

    def __getattr__(self, nm):
        d = self._d if self._d is not None else self._fr.loc
        nm2 = self._i.rename.get(nm, nm)
        if nm2 in d:
            if d[nm2] is UNDEF:
                raise Unsupported(f"invariant mentions undefined variable {nm}")
            return d[nm2]
        raise Unsupported(f"invariant mentions unknown variable {nm}")

    def has(self, nm):
        d = self._d if self._d is not None else self._fr.loc
        return self._i.rename.get(nm, nm) in d


def snap(v):
    """immutable copy of a value's current content"""
    if isinstance(v, CArr):
        return v.copy()
    if isinstance(v, LArr):
        return v.copy()
    if isinstance(v, PyList):
        if v.items is not None:
            return PyList([snap(x) for x in v.items])
        return PyList(None, v.n, v.get)
    if isinstance(v, PyDict):
        if v.d is not None:
            r = PyDict(dict(v.d), v.default)
            r.missing = v.missing
            return r
        r = PyDict({})
        r.d = None
        r.n, r.keyat, r.has, r.get, r.default = v.n, v.keyat, v.has, v.get, v.default
        return r
    if isinstance(v, PySet):
        r = PySet(list(v.items) if v.items is not None else None, v.has)
        r.n, r.at = v.n, v.at
        return r
    if isinstance(v, tuple):
        return tuple(snap(x) for x in v)
    return v
