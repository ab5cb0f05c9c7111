"""pyvc interpreter: symbolic execution of the AST of the real functions.

The AST is read from the source file the function was imported from, on every run.  Whatever is not understood raises
Unsupported, which makes the obligation fail (never succeed).
"""
import ast
import builtins
import collections
import contextlib
import functools
import inspect
import itertools
import os
import sys
import types

import z3

from . import core
from .core import (BMethod, Env, Heap, LazySeq, ModelObj, Opaque, PathDone, PyRaise, Restart, SBool, SBytes, SInt, SReal, SStr,
                   Seg, Sym, UNBOUND, Unsupported, VAny, VBound, VByteArray, VDict, VFunc, VList, VObj, Watch,
                   binop, compare, eq, fold_int, force, int_term, is_str, mk_str, neg, same, truth, unop)


class ReturnSignal(Exception):
    def __init__(self, v):
        self.v = v


class BreakSignal(Exception):
    pass


class ContinueSignal(Exception):
    pass


SIGNALS = (PyRaise, ReturnSignal, BreakSignal, ContinueSignal)     # and OutSignal

REPO = os.environ.get('PYVC_REPO', '/repo')
# packages whose functions are interpreted (everything else needs a model)
SCOPE_PREFIXES = [REPO + '/jaeger_client', REPO + '/crossdock']
SCOPE_LIBRARY = ('thrift.transport.TTransport',)
SCOPE_MODULES = ('opentracing', 'jaeger_client', 'crossdock', 'clients')
SCOPE_SKIP = ('contracts', 'pyvc')

_src_cache = {}


def module_tree(path):
    if path not in _src_cache:
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        index = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                lines = [n.lineno] + [d.lineno for d in n.decorator_list]
                for l in set(lines):
                    index.setdefault((n.name, l), n)
            elif isinstance(n, ast.Lambda):
                index.setdefault(('<lambda>', n.lineno), []).append(n)
        mangle(tree, None)
        # enclosing class of every function
        owner = {}

        def walk(node, cls):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.ClassDef):
                    walk(c, c.name)
                else:
                    if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                        owner[c] = cls
                    walk(c, cls)
        walk(tree, None)
        _src_cache[path] = (tree, index, owner)
    return _src_cache[path]


def mangle(node, cls):
    """names private to a class"""
    for c in ast.iter_child_nodes(node):
        for f in ('id', 'attr', 'arg', 'name'):
            n = getattr(c, f, None)
            if cls and isinstance(n, str) and n.startswith('__') and not n.endswith('__') and not isinstance(c, (ast.ClassDef, ast.alias)) and cls.strip('_'):
                setattr(c, f, '_%s%s' % (cls.lstrip('_'), n))
        mangle(c, c.name if isinstance(c, ast.ClassDef) else cls)


def in_scope(fn):
    code = getattr(fn, '__code__', None)
    if code is None:
        return False
    path = code.co_filename
    if any(path.startswith(p) for p in SCOPE_PREFIXES):
        return True
    mod = getattr(fn, '__module__', '') or ''
    return mod.split('.')[0] in SCOPE_MODULES or mod in SCOPE_LIBRARY


def node_of(fn):
    code = fn.__code__
    tree, index, owner = module_tree(code.co_filename)
    n = index.get((code.co_name, code.co_firstlineno))
    if isinstance(n, list):
        if len(n) > 1:
            raise Unsupported('several lambdas on one line')
        n = n[0]
    if n is None:
        raise Unsupported('no source for %s' % fn)
    return n


_names_cache = {}


def local_names(node):
    """names bound in the function (Python scoping)"""
    if node in _names_cache:
        return _names_cache[node]
    names, nonloc = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            visit(n.generators[0].iter)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nonloc.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    r = (frozenset(names - nonloc), frozenset(nonloc))
    _names_cache[node] = r
    return r


def has_yield(node):
    key = ('y', node)
    if key not in _names_cache:
        r = False

        def visit(n):
            nonlocal r
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
            for c in ast.iter_child_nodes(n):
                visit(c)
        for s in (node.body if isinstance(node.body, list) else [node.body]):
            visit(s)
        _names_cache[key] = r
    return _names_cache[key]


class DictView(object):
    def __init__(self, d, kind):
        self.d, self.kind = d, kind


class RangeV(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class Once(object):
    """an iterator: gives its elements once"""
    used = False

    def __new__(cls, *a):
        o = object.__new__(cls)
        o.birth = core.cur().register(o)
        return o

    done = False

    def use(self):
        """False: it was used up before"""
        if self.done:
            return False
        if self.used:
            raise Unsupported('an iterator used again')
        if any(self.birth < w.start for w in core.cur().watchers):
            raise Unsupported('an iterator from before a loop used in it')
        self.used = True
        return True


class EnumV(Once):
    def __init__(self, it, start=0):
        self.it, self.start = it, start


class ZipV(Once):
    def __init__(self, its):
        self.its = its


class GenV(Once):
    """a generator expression, evaluated by its consumer (its first iterable was evaluated when it was made)"""
    def __init__(self, node, env, first):
        self.node, self.env, self.first = node, env, first

    def consume(self, I, body):
        if self.use():
            I.comp(self.node, self.env, lambda c: body(I.ev(self.node.elt, c)), first=self.first)
            self.done = True


class OutSignal(Exception):
    """what the consumer of a generator (or the body of a with statement) raised, on its way out through it"""
    def __init__(self, tok, inner):
        self.tok, self.inner = tok, inner


SIGNALS = SIGNALS + (OutSignal,)


class GenFn(Once):
    """a call of a generator function: its body runs when it is consumed, and the consumer's body at every yield"""
    def __init__(self, f, env):
        self.f, self.env = f, env

    def consume(self, I, body):
        if not self.use():
            return None

        def emit(v):
            try:
                body(v)
            except SIGNALS as s:
                raise OutSignal(self, s)
        try:
            r = self.run(I, emit)
            self.done = True
            return r
        except OutSignal as s:
            if s.tok is not self:
                raise
            raise s.inner

    def run(self, I, emit):
        ctx = I.ctx
        ctx.depth += 1
        if ctx.depth > 60:
            raise Unsupported('recursion too deep')
        self.env.yielder = emit
        try:
            I.block(self.f.node.body, self.env)
        except ReturnSignal as r:
            return r.v
        finally:
            ctx.depth -= 1

    def plain(self):
        """no statement of it does something when it is left at a yield"""
        return not any(isinstance(n, (ast.Try, ast.With)) for n in ast.walk(self.f.node))


class CtxV(Once):
    """what a function decorated with contextlib.contextmanager returns"""
    def __init__(self, g):
        self.g = g

    def within(self, I, body):
        """body(value) with the value of the yield; what the body raises is raised at the yield"""
        if not (self.use() and self.g.use()):
            raise Unsupported('a context manager entered again')
        seen, left = [], []

        def emit(v):
            if seen:
                I.ctx.raise_py(RuntimeError, "generator didn't stop")
            seen.append(v)
            try:
                body(v)
            except (ReturnSignal, BreakSignal, ContinueSignal, OutSignal) as s:
                left.append(s)
        self.g.run(I, emit)
        if not seen:
            I.ctx.raise_py(RuntimeError, "generator didn't yield")
        if left:
            raise left[0]


class CtxFn(object):
    """a local function decorated with contextlib.contextmanager"""
    def __init__(self, fn):
        self.fn = fn


class MapV(Once):
    def __init__(self, fn, it):
        self.fn, self.it = fn, it


class FilterV(Once):
    def __init__(self, fn, it):
        self.fn, self.it = fn, it


class IterV(ModelObj):
    """explicit iterator over known elements and segments of unknown ones"""
    used = False

    def __init__(self, items):
        self.items = items
        self.pos = 0
        self.off = 0        # within a segment


class SuperV(object):
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


CONTEXTMANAGER = contextlib.contextmanager(lambda: None).__code__


def model_name(fn):
    return '%s.%s' % (getattr(fn, '__module__', None) or '', getattr(fn, '__qualname__', None) or getattr(fn, '__name__', repr(fn)))


def copies(e):
    """[x for x in X], [(x, y) for x, y in X.items()]: list(X)"""
    g = e.generators[0]
    if len(e.generators) > 1 or g.ifs or g.is_async:
        return False
    t, v = g.target, e.elt
    if isinstance(t, ast.Name):
        return isinstance(v, ast.Name) and v.id == t.id
    return isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) == 2 and \
        all(isinstance(x, ast.Name) for x in t.elts + v.elts) and [x.id for x in t.elts] == [x.id for x in v.elts] and \
        t.elts[0].id != t.elts[1].id and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and \
        g.iter.func.attr == 'items' and not g.iter.args


def copies_pairs(e):
    return isinstance(e.elt, ast.Tuple)


class Interp(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.handling = []          # exceptions being handled
        self.trace = ctx.explorer.trace_functions

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kwargs=None):
        kwargs = kwargs or {}
        fn = force(fn)
        ctx = self.ctx
        from . import models
        if isinstance(fn, functools.partial):
            return self.call(fn.func, list(fn.args) + list(args), dict(fn.keywords, **kwargs))
        if isinstance(fn, VBound):
            return self.call(fn.fn, [fn.self_] + list(args), kwargs)
        if isinstance(fn, VFunc):
            return self.call_vfunc(fn, args, kwargs)
        if isinstance(fn, CtxFn):
            return self.call_ctx(fn.fn, args, kwargs)
        if isinstance(fn, BMethod):
            return models.call_method(self, fn.obj, fn.name, list(args), kwargs)
        if isinstance(fn, models.CoroutineFn):
            return models.call_unknown(self, fn, args, kwargs)
        if isinstance(fn, types.MethodType):
            try:
                m = models.MODELS.get(fn)
            except TypeError:
                m = None
            if m is not None:
                ctx.explorer.used_models.add(model_name(fn))
                return m(self, *args, **kwargs)
            if self.is_harness(fn.__func__) or isinstance(fn.__self__, ModelObj):
                return self.native_call(fn, args, kwargs)
            return self.call(fn.__func__, [fn.__self__] + list(args), kwargs)
        try:
            hash(fn)
            m = models.MODELS.get(fn)
        except TypeError:
            m = None
        if m is not None:
            ctx.explorer.used_models.add(model_name(fn))
            return m(self, *args, **kwargs)
        if isinstance(fn, types.FunctionType):
            spec = ctx.explorer.contracts.get(fn)
            if spec is not None and not ctx.explorer.is_unit_for(fn):
                r = spec.apply(self, list(args), dict(kwargs))
                if r is not NotImplemented:
                    ctx.explorer.used_contracts.add(spec.name)
                    return r
            if self.is_harness(fn):
                return self.native_call(fn, args, kwargs)
            w = getattr(fn, '__wrapped__', None)
            if w is not None and getattr(fn, '__tornado_coroutine__', False):
                return self.call_coroutine(w, args, kwargs)
            if w is not None and fn.__code__ is CONTEXTMANAGER:
                return self.call_ctx(w, args, kwargs)
            if in_scope(fn):
                return self.call_native_fn(fn, args, kwargs)
            return models.call_unknown(self, fn, args, kwargs)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, VObj):
            c = self.class_attr(fn.cls, '__call__')
            if c is UNBOUND:
                ctx.raise_py(TypeError, 'object is not callable')
            return self.call(c[0], [fn] + list(args), kwargs)
        if isinstance(fn, (ModelObj,)) and callable(fn):
            return self.native_call(fn, args, kwargs)
        if isinstance(fn, (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodDescriptorType,
                           types.WrapperDescriptorType, types.MethodWrapperType)) or callable(fn):
            return models.call_unknown(self, fn, args, kwargs)
        ctx.raise_py(TypeError, 'object is not callable')

    def is_harness(self, fn):
        mod = (getattr(fn, '__module__', '') or '').split('.')[0]
        return mod in SCOPE_SKIP or getattr(fn, '__pyvc_native__', False)

    def native_call(self, fn, args, kwargs):
        try:
            return fn(*args, **kwargs)
        except PyRaise:
            raise
        except SIGNALS:
            raise
        except Exception as e:
            if os.environ.get('PYVC_DEBUG'):
                import traceback
                traceback.print_exc()
            if e.__traceback__.tb_next is not None:
                # not the call itself: a mistake in a model or a stand-in, not what the code would see
                raise Unsupported('%s in %s: %s' % (type(e).__name__, getattr(fn, '__qualname__', fn), e))
            raise PyRaise(e)

    def call_native_fn(self, fn, args, kwargs):
        """interpret a real function from its source"""
        node = node_of(fn)
        mod = sys.modules.get(fn.__globals__.get('__name__'), sys.modules.get(fn.__module__))
        env = None
        if fn.__closure__:
            env = Env(frozenset(fn.__code__.co_freevars), None, mod)
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    env.vars[n] = self.ctx.wrap(c.cell_contents)
                except ValueError:
                    pass
        self.trace.add('%s.%s' % (fn.__module__, fn.__qualname__))
        defaults = [self.ctx.wrap(d) for d in (fn.__defaults__ or ())]
        kwd = {k: self.ctx.wrap(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        defcls = None
        if '__class__' in fn.__code__.co_freevars:
            defcls = env.vars.get('__class__')
        f = VFunc(node, env, mod, defaults, kwd, fn.__qualname__, defcls)
        return self.call_vfunc(f, args, kwargs)

    def call_coroutine(self, w, args, kwargs):
        from . import models
        try:
            v = self.call_native_fn(w, args, kwargs)
        except PyRaise as e:
            f = models.VFuture()
            f.set_exception(e.exc)
            return f
        except core.Suspend:
            return models.VFuture()
        f = models.VFuture()
        f.set_result(v)
        return f

    def call_ctx(self, fn, args, kwargs):
        g = self.call(fn, args, kwargs)
        if not isinstance(g, GenFn):
            raise Unsupported('contextmanager of something that is not a generator function')
        return CtxV(g)

    def bind(self, f, args, kwargs):
        node = f.node
        a = node.args
        ctx = self.ctx
        out = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(pos):
            if a.vararg is None:
                ctx.raise_py(TypeError, '%s() takes %d positional arguments but %d were given' % (f.name, len(pos), len(args)))
            rest = args[len(pos):]
            out[a.vararg.arg] = VList(rest, is_tuple=True) if any(isinstance(x, Seg) for x in rest) else tuple(rest)
            args = args[:len(pos)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        if any(isinstance(x, Seg) for x in args):
            raise Unsupported('a sequence of unknown length where a known one is needed')
        for n, v in zip(pos, args):
            out[n] = v
        extra = VDict()
        for k, v in kwargs.items():
            if k in pos and k not in [x.arg for x in a.posonlyargs] or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    ctx.raise_py(TypeError, 'multiple values for argument ' + k)
                out[k] = v
            elif a.kwarg is not None:
                extra.ops.append(('set', k, v))
            else:
                ctx.raise_py(TypeError, '%s() got an unexpected keyword argument %s' % (f.name, k))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    ctx.raise_py(TypeError, '%s() missing argument %s' % (f.name, n))
                out[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg not in f.kwdefaults:
                    ctx.raise_py(TypeError, '%s() missing keyword argument %s' % (f.name, x.arg))
                out[x.arg] = f.kwdefaults[x.arg]
        if a.kwarg is not None:
            out[a.kwarg.arg] = extra
        return out

    def call_vfunc(self, f, args, kwargs):
        ctx = self.ctx
        ctx.depth += 1
        if ctx.depth > 60:
            raise Unsupported('recursion too deep')
        try:
            node = f.node
            names, _ = local_names(node)
            env = Env(names, f.env, f.module, f.name)
            env.node = f.node
            if f.defcls is not None:
                env.vars['__class__'] = f.defcls
            env.vars.update(self.bind(f, args, kwargs))
            env.first = None
            pn = [x.arg for x in node.args.posonlyargs + node.args.args]
            if pn:
                env.first = env.vars[pn[0]]
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            if has_yield(node) and not getattr(f, 'coroutine', False) and not self.is_coroutine_node(node):
                return GenFn(f, env)
            try:
                self.block(node.body, env)
            except ReturnSignal as r:
                return r.v
            return None
        finally:
            ctx.depth -= 1

    def is_coroutine_node(self, node):
        return any('coroutine' in ast.dump(d) for d in node.decorator_list)

    def instantiate(self, cls, args, kwargs):
        from . import models
        ctx = self.ctx
        if self.is_harness_cls(cls):
            return self.native_call(cls, args, kwargs)
        if issubclass(cls, BaseException):
            o = VObj(cls, {'args': tuple(args)})
            init = self.class_attr(cls, '__init__')
            if init is not UNBOUND and isinstance(init[0], types.FunctionType) and in_scope(init[0]):
                self.call(init[0], [o] + list(args), kwargs)
            return o
        mod = (cls.__module__ or '').split('.')[0]
        if hasattr(cls, '_fields') and issubclass(cls, tuple):
            vals = list(args)
            if len(vals) > len(cls._fields) or any(k not in cls._fields[len(vals):] for k in kwargs):
                ctx.raise_py(TypeError, 'unexpected argument')
            if '__new__' in cls.__dict__ and '_fields' not in cls.__dict__:
                raise Unsupported('__new__ of ' + cls.__name__)
            for n in cls._fields[len(vals):]:
                if n in kwargs:
                    vals.append(kwargs[n])
                elif n in cls._field_defaults:
                    vals.append(cls._field_defaults[n])
                else:
                    ctx.raise_py(TypeError, 'missing ' + n)
            return VObj(cls, dict(zip(cls._fields, vals)))
        if mod in SCOPE_MODULES or mod in ('thrift',):
            o = VObj(cls)
            init = self.class_attr(cls, '__init__')
            if init is not UNBOUND and isinstance(init[0], types.FunctionType):
                self.call(init[0], [o] + list(args), kwargs)
            elif cls.__new__ is not object.__new__:
                raise Unsupported('__new__ of ' + cls.__name__)
            elif args or kwargs:
                ctx.raise_py(TypeError, '%s() takes no arguments' % cls.__name__)
            return o
        return models.call_unknown(self, cls, args, kwargs)

    def is_harness_cls(self, cls):
        return (cls.__module__ or '').split('.')[0] in SCOPE_SKIP

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if (c, name) in self.ctx.native_fields:
                return self.ctx.native_fields[(c, name)], c
            if name in c.__dict__:
                return c.__dict__[name], c
        return UNBOUND

    def getattr(self, o, name, default=UNBOUND):
        ctx = self.ctx
        o = force(o)
        from . import models
        if isinstance(o, VObj):
            if name == '__class__':
                return o.cls
            ca = self.class_attr(o.cls, name)
            if ca is not UNBOUND:
                a, c = ca
                if isinstance(a, property):
                    return self.call(a.fget, [o])
            if name in o.fields:
                lk = ctx.hooks.get('getfield')
                if lk:
                    lk(o, name)
                return o.fields[name]
            if name == '__dict__':
                d = VDict()
                for k, v in o.fields.items():
                    d.ops.append(('set', k, v))
                return d
            if ca is not UNBOUND:
                a, c = ca
                if isinstance(a, types.FunctionType):
                    return VBound(o, a, c)
                if isinstance(a, VFunc):
                    return VBound(o, a, c)
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, classmethod):
                    return VBound(o.cls, a.__func__)
                if isinstance(a, types.MemberDescriptorType):
                    if default is not UNBOUND:
                        return default
                    ctx.raise_py(AttributeError, name)
                if issubclass(o.cls, BaseException) and isinstance(a, types.GetSetDescriptorType):
                    if name in ('__traceback__', '__cause__', '__context__'):
                        return None
                if isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                    if name in ('__init__', '__init_subclass__'):
                        return lambda *x, **k: None
                    return BMethod(o, name)
                return ctx.wrap(a)
            ga = self.class_attr(o.cls, '__getattr__')
            if ga is not UNBOUND and isinstance(ga[0], types.FunctionType) and in_scope(ga[0]):
                return self.call(ga[0], [o, name])
            if default is not UNBOUND:
                return default
            real = getattr(o.cls, 'stands_for', None)
            if real is not None and hasattr(real, name):
                raise Unsupported('%s.%s' % (real.__name__, name))
            ctx.raise_py(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.__name__, name))
        if isinstance(o, SuperV):
            obj = o.obj
            cls = obj.cls if isinstance(obj, VObj) else (obj if isinstance(obj, type) else type(obj))
            mro = cls.__mro__
            i = mro.index(o.cls) + 1
            for c in mro[i:]:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if isinstance(a, property):
                        return self.call(a.fget, [obj])
                    if isinstance(a, types.FunctionType):
                        return VBound(obj, a, c)
                    if isinstance(a, staticmethod):
                        return a.__func__
                    if isinstance(a, classmethod):
                        return VBound(cls, a.__func__)
                    if name == '__init__':
                        return models.noop
                    if isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                        return BMethod(obj, name)
                    return ctx.wrap(a)
            if default is not UNBOUND:
                return default
            ctx.raise_py(AttributeError, name)
        if isinstance(o, ModelObj):
            try:
                return getattr(o, name)
            except AttributeError as e:
                if isinstance(o, Opaque) and o.pycls is not object:
                    raise Unsupported('attribute %s of opaque %s' % (name, o.label))
                if hasattr(models.pytype(o), name) or hasattr(getattr(o, 'stands_for', None), name):
                    raise Unsupported('%s of %s' % (name, models.pytype(o).__name__))
                if default is not UNBOUND:
                    return default
                raise PyRaise(e)
        if isinstance(o, (SStr, str, bytes, SBytes, VByteArray, VDict, VList, LazySeq, tuple, SInt, SReal, SBool, int, float,
                          DictView)):
            if models.has_method(o, name):
                return BMethod(o, name)
            if isinstance(o, (tuple, int, float, str, bytes)) and not name.startswith('__') and hasattr(o, name):
                return ctx.wrap(getattr(o, name))
            if name == '__class__':
                return models.pytype(o)
            if hasattr(models.pytype(o), name):
                raise Unsupported('%s of %s' % (name, models.pytype(o).__name__))
            if default is not UNBOUND:
                return default
            ctx.raise_py(AttributeError, "object has no attribute '%s'" % name)
        if isinstance(o, (VFunc, VBound)):
            if name == '__name__':
                return (o.name if isinstance(o, VFunc) else getattr(o.fn, '__name__', '?')).split('.')[-1]
            if name == '__self__' and isinstance(o, VBound):
                return o.self_
            if hasattr(models.pytype(o), name):
                raise Unsupported('%s of a function' % name)
            if default is not UNBOUND:
                return default
            ctx.raise_py(AttributeError, name)
        if isinstance(o, BMethod):
            if default is not UNBOUND:
                return default
            raise Unsupported('attribute of builtin method')
        if isinstance(o, type):
            if name == '__name__':
                return o.__name__
            ca = self.class_attr(o, name)
            if ca is not UNBOUND:
                a, c = ca
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, classmethod):
                    return VBound(o, a.__func__)
                if isinstance(a, (property, types.FunctionType)):
                    return a
                if isinstance(a, (types.MethodDescriptorType, types.WrapperDescriptorType)):
                    return getattr(o, name)
                return self.ctx.wrap(getattr(o, name) if not (c, name) in ctx.native_fields else a)
            if hasattr(o, name):
                return ctx.wrap(getattr(o, name))
            if default is not UNBOUND:
                return default
            ctx.raise_py(AttributeError, name)
        if isinstance(o, types.ModuleType):
            if (o.__name__, name) in ctx.modvars:
                return ctx.modvars[(o.__name__, name)]
            if hasattr(o, name):
                return ctx.wrap(getattr(o, name))
            if default is not UNBOUND:
                return default
            ctx.raise_py(AttributeError, name)
        if isinstance(o, (DictView, RangeV, Once)):
            if hasattr(models.pytype(o), name):
                return BMethod(o, name) if callable(getattr(models.pytype(o), name)) else models.unsupported(name)
            if default is not UNBOUND:
                return default
            ctx.raise_py(AttributeError, name)
        # other native object
        k = (id(o), name)
        if k in ctx.native_fields:
            return ctx.native_fields[k]
        try:
            return ctx.wrap(getattr(o, name))
        except AttributeError as e:
            if default is not UNBOUND:
                return default
            raise PyRaise(e)

    def setattr(self, o, name, v):
        ctx = self.ctx
        o = force(o)
        if isinstance(o, VObj):
            ca = self.class_attr(o.cls, name)
            if ca is not UNBOUND and isinstance(ca[0], property):
                if ca[0].fset is None:
                    ctx.raise_py(AttributeError, 'property %s has no setter' % name)
                self.call(ca[0].fset, [o, v])
                return
            if not isinstance(o.cls.__setattr__, types.WrapperDescriptorType):
                raise Unsupported('__setattr__ of ' + o.cls.__name__)
            if not o.cls.__dictoffset__ and (ca is UNBOUND or not isinstance(ca[0], types.MemberDescriptorType)):
                ctx.raise_py(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.__name__, name))
            hk = ctx.hooks.get('setfield')
            if hk:
                hk(o, name, v)
            o.setfield(name, v)
            return
        if isinstance(o, ModelObj):
            setattr(o, name, v)
            return
        if isinstance(o, type):
            if ctx.watchers:
                raise Unsupported('class attribute written inside a loop')
            ctx.native_fields[(o, name)] = v
            return
        if isinstance(o, types.ModuleType):
            if ctx.watchers:
                raise Unsupported('module attribute written inside a loop')
            ctx.modvars[(o.__name__, name)] = v
            return
        if isinstance(o, (Sym, str, int, float, type(None), bytes, tuple)):
            ctx.raise_py(AttributeError, name)
        raise Unsupported('attribute assignment on %r' % (o,))

    def delattr(self, o, name):
        o = force(o)
        if isinstance(o, VObj):
            if name not in o.fields:
                self.ctx.raise_py(AttributeError, name)
            self.ctx.note(o, name, o.fields[name])
            del o.fields[name]
            return
        raise Unsupported('del attribute')

    def truth_obj(self, o):
        for m in ('__bool__', '__len__'):
            a = self.class_attr(o.cls, m)
            if a is not UNBOUND and isinstance(a[0], types.FunctionType):
                return truth(self.call(a[0], [o]))
        if issubclass(o.cls, tuple):
            return len(o.cls._fields) > 0
        return True

    def eq_obj(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VObj):
                m = self.class_attr(x.cls, '__eq__')
                if m is not UNBOUND and isinstance(m[0], types.FunctionType):
                    r = self.call(m[0], [x, y])
                    if r is NotImplemented:
                        continue
                    return r
                if m is not UNBOUND and issubclass(x.cls, tuple):
                    u, v = [tuple(z.fields[f] for f in z.cls._fields) if isinstance(z, VObj) and issubclass(z.cls, tuple) else z for z in (x, y)]
                    return False if isinstance(v, VObj) else eq(u, v)
        return a is b

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v.__class__ is not VAny or not getattr(v, 'unb', False):
                    return v
                if force(v) is not UNBOUND:
                    return v
                self.ctx.raise_py(UnboundLocalError if e is env else NameError, name)
            if name in e.names:
                self.ctx.raise_py(UnboundLocalError if e is env else NameError, name)
            if e.parent is None:
                break
            e = e.parent
        mod = env.glob
        k = (mod.__name__, name)
        if k in self.ctx.modvars:
            return self.ctx.modvars[k]
        if name in mod.__dict__:
            return self.ctx.wrap(mod.__dict__[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.ctx.raise_py(NameError, "name '%s' is not defined" % name)

    def store(self, name, v, env):
        e = env
        while e is not None:
            if name in e.names or name in e.vars:
                e.set(name, v)
                return
            if getattr(e, 'comp', False) or name in getattr(e, 'nonlocal_', ()):
                e = e.parent
                continue
            e = e.parent
        if self.ctx.watchers:
            raise Unsupported('global written inside a loop')
        self.ctx.modvars[(env.glob.__name__, name)] = v

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %d' % (type(s).__name__, s.lineno))
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = OPS[type(s.op)]
        t = s.target
        from . import models
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            self.store(t.id, models.inplace(op, old, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, models.inplace(op, old, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev_index(t.slice, env)
            old = models.getitem(o, i)
            models.setitem(o, i, models.inplace(op, old, self.ev(s.value, env)))
        else:
            raise Unsupported('augmented assignment target')

    def assign(self, t, v, env):
        from . import models
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            models.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                items = models.items_list(self, v)
                k = stars[0]
                n = len(t.elts) - 1
                if len(items) < n:
                    self.ctx.raise_py(ValueError, 'not enough values to unpack')
                after = n - k
                vals = items[:k] + [VList(items[k:len(items) - after])] + items[len(items) - after:]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            items = models.unpack(self, v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def s_Delete(self, s, env):
        from . import models
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.lookup(t.id, env)
                env.set(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                models.delitem(self.ev(t.value, env), self.ev_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, env), t.attr)
            else:
                raise Unsupported('del target')

    def s_Return(self, s, env):
        raise ReturnSignal(self.ev(s.value, env) if s.value is not None else None)

    def s_If(self, s, env):
        if truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Break(self, s, env):
        raise BreakSignal()

    def s_Continue(self, s, env):
        raise ContinueSignal()

    def s_Assert(self, s, env):
        if not truth(self.ev(s.test, env)):
            self.ctx.raise_py(AssertionError, 'assertion failed')

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            from . import models
            if dv in models.COROUTINE_DECORATORS:
                f.coroutine = True
                f = models.CoroutineFn(f)
            else:
                f = self.call(dv, [f])
        self.store(s.name, f, env)

    def make_func(self, node, env):
        defaults = [self.ev(d, env) for d in node.args.defaults]
        kwd = {a.arg: self.ev(d, env) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        return VFunc(node, env, env.glob, defaults, kwd, getattr(node, 'name', '<lambda>'))

    def s_Import(self, s, env):
        import importlib
        for al in s.names:
            m = importlib.import_module(al.name)
            if al.asname:
                self.store(al.asname, m, env)
            else:
                self.store(al.name.split('.')[0], sys.modules[al.name.split('.')[0]], env)

    def s_ImportFrom(self, s, env):
        import importlib
        pkg = env.glob.__package__
        name = '.' * s.level + (s.module or '')
        try:
            m = importlib.import_module(name, pkg) if s.level else importlib.import_module(s.module)
        except ImportError as e:
            raise PyRaise(e)
        for al in s.names:
            if not hasattr(m, al.name):
                m2 = importlib.import_module(m.__name__ + '.' + al.name)
                self.store(al.asname or al.name, m2, env)
            else:
                self.store(al.asname or al.name, self.ctx.wrap(getattr(m, al.name)), env)

    def s_Raise(self, s, env):
        if s.exc is None:
            if not self.handling:
                self.ctx.raise_py(RuntimeError, 'No active exception to re-raise')
            raise PyRaise(self.handling[-1])
        e = force(self.ev(s.exc, env))
        if s.cause is not None:
            self.ev(s.cause, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.instantiate(e, [], {})
        if isinstance(e, BaseException) or isinstance(e, VObj) and issubclass(e.cls, BaseException):
            from . import models
            if core.exc_class(e) is models.GEN_RETURN:
                raise ReturnSignal(e.fields.get('args', (None,))[0] if isinstance(e, VObj) and e.fields.get('args') else None)
            raise PyRaise(e)
        self.ctx.raise_py(TypeError, 'exceptions must derive from BaseException')

    def s_Try(self, s, env):
        pending = None
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                handled = False
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        tv = force(self.ev(h.type, env))
                        classes = tv if isinstance(tv, tuple) else (tv,)
                        classes = tuple(force(c) for c in classes)
                        for c in classes:
                            if not isinstance(c, type):
                                self.ctx.raise_py(TypeError, 'catching classes that do not inherit from BaseException')
                        ok = issubclass(e.cls, classes)
                    if ok:
                        handled = True
                        if h.name:
                            self.store(h.name, e.exc, env)
                        self.handling.append(e.exc)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.handling.pop()
                            if h.name and h.name in env.vars:
                                env.set(h.name, UNBOUND)
                        break
                if not handled:
                    raise
            else:
                self.block(s.orelse, env)
        except SIGNALS as e:
            pending = e
        if s.finalbody:
            self.block(s.finalbody, env)
        if pending is not None:
            raise pending

    def s_With(self, s, env):
        self.with_items(list(s.items), s.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.block(body, env)
            return
        it = items[0]
        cm = force(self.ev(it.context_expr, env))
        if isinstance(cm, CtxV):
            def inner(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
                self.with_items(items[1:], body, env)
            cm.within(self, inner)
            return
        v = self.call(self.getattr(cm, '__enter__'), [])
        exit_ = self.getattr(cm, '__exit__')
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except PyRaise as e:
            if truth(self.call(exit_, [e.cls, e.exc, None])):
                return
            raise
        except (ReturnSignal, BreakSignal, ContinueSignal, OutSignal):
            self.call(exit_, [None, None, None])
            raise
        self.call(exit_, [None, None, None])

    # ------------------------------------------------------------ match
    def s_Match(self, s, env):
        v = force(self.ev(s.subject, env))
        for c in s.cases:
            if self.matches(c.pattern, v, env) and (c.guard is None or truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def matches(self, p, v, env):
        from . import models
        v = force(v)
        if isinstance(p, ast.MatchValue):
            return truth(eq(v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return truth(same(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, env):
                return False
            if p.name is not None:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.matches(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, list, VList, LazySeq)):
                if isinstance(v, (ModelObj, VObj, range)):
                    raise Unsupported('match of a sequence pattern')
                return False
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported('star pattern')
            if not truth(eq(models.m_len(self, v), len(p.patterns))):
                return False
            return all(self.matches(q, x, env) for q, x in zip(p.patterns, models.unpack(self, v, len(p.patterns))))
        if isinstance(p, ast.MatchClass):
            cls = force(self.ev(p.cls, env))
            if not truth(models.m_isinstance(self, v, cls)):
                return False
            if p.patterns:
                if cls not in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple) or len(p.patterns) != 1:
                    raise Unsupported('positional class pattern')
                if not self.matches(p.patterns[0], v, env):
                    return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                x = self.getattr(v, n, UNBOUND)
                if x is UNBOUND or not self.matches(q, x, env):
                    return False
            return True
        raise Unsupported('pattern %s' % type(p).__name__)

    def s_ClassDef(self, s, env):
        raise Unsupported('class definition inside a function')

    # ------------------------------------------------------------ loops
    def s_For(self, s, env):
        it = self.ev(s.iter, env)

        def body(v):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except ContinueSignal:
                pass
        try:
            self.iterate(it, body, s, env)
        except BreakSignal:
            return
        self.block(s.orelse, env)

    def s_While(self, s, env):
        from .loops import run_while
        try:
            run_while(self, s, env)
        except BreakSignal:
            return
        self.block(s.orelse, env)

    def iterate(self, it, body, site, env=None):
        """run body over the elements; BreakSignal from the body propagates to the caller"""
        from .loops import run_others, phases
        it = force(it)
        src = it
        while isinstance(src, MapV):
            src = force(src.it)
        if isinstance(src, (GenV, GenFn, FilterV)):
            from . import models
            models.consume(self, it, body, site)
            return
        for ph in phases(self, it, site):
            if ph[0] == 'elem':
                body(ph[1])
            else:
                run_others(self, ph[1], body, site, count=ph[2] if len(ph) > 2 else None, env=env)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %d' % (type(e).__name__, e.lineno))
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Await(self, e, env):
        return self.resolve_yield(self.ev(e.value, env))

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        y = self.yielder(env)
        return y(v) if y is not None else self.resolve_yield(v)

    def yielder(self, env):
        while getattr(env, 'comp', False):
            env = env.parent
        return getattr(env, 'yielder', None)

    def e_YieldFrom(self, e, env):
        from . import models
        v = force(self.ev(e.value, env))
        y = self.yielder(env)
        if y is None:
            raise Unsupported('yield from in a coroutine')
        if isinstance(v, GenFn):
            return v.consume(self, y)
        models.consume(self, v, y, e)

    def resolve_yield(self, v):
        from . import models
        return models.resolve_yield(self, v)

    def ev_index(self, n, env):
        if isinstance(n, ast.Slice):
            return slice(self.ev(n.lower, env) if n.lower else None, self.ev(n.upper, env) if n.upper else None,
                         self.ev(n.step, env) if n.step else None)
        return self.ev(n, env)

    def e_Subscript(self, e, env):
        from . import models
        return models.getitem(self.ev(e.value, env), self.ev_index(e.slice, env))

    def e_Slice(self, e, env):
        return self.ev_index(e, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = truth(v)
            if isand and not t or not isand and t:
                if isinstance(v, SBool):
                    return t
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        return unop({ast.Not: 'not', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)], v)

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return binop(OPS[type(e.op)], a, b)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        out = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            c = self.compare1(op, left, right)
            if i == len(e.ops) - 1:
                return c
            if not truth(c):
                return False
            left = right
        return out

    def compare1(self, op, a, b):
        from . import models
        t = type(op)
        if t is ast.Eq:
            return eq(a, b)
        if t is ast.NotEq:
            a2 = force(a)
            r = eq(a, b)
            return neg(r) if isinstance(r, (bool, SBool)) else not truth(r)
        if t is ast.Is:
            return same(a, b)
        if t is ast.IsNot:
            return neg(same(a, b))
        if t is ast.In:
            return models.contains(self, b, a)
        if t is ast.NotIn:
            return neg(models.contains(self, b, a))
        return compare({ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[t], a, b)

    def e_IfExp(self, e, env):
        return self.ev(e.body if truth(self.ev(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.store(e.target.id, v, env)
        return v

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_Tuple(self, e, env):
        from . import models
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(models.items_list(self, self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return tuple(out)

    def e_List(self, e, env):
        from . import models
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(models.parts_of(self, self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return VList(out)

    def e_Set(self, e, env):
        d = VDict(cls=set)
        d.is_set = True
        for x in e.elts:
            d.set(self.ev(x, env), True)
        return d

    def e_Dict(self, e, env):
        from . import models
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = force(self.ev(v, env))
                if not isinstance(m, (VDict, dict)) or getattr(m, 'is_set', False):
                    models.refuse(m, "'%s' object is not a mapping", 'keys')
                models.dict_update(self, d, m)
            else:
                kk = self.ev(k, env)
                d.set(force(kk), self.ev(v, env))
        return d

    def e_JoinedStr(self, e, env):
        from . import models
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else ''
                if v.conversion == ord('r'):
                    x = models.to_repr(self, x)
                elif v.conversion == ord('s'):
                    x = models.to_str(self, x)
                parts.append(models.fmt(self, x, spec))
        return mk_str(parts)

    def e_Call(self, e, env):
        from . import models
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.zero_super(env)
        fn = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(models.parts_of(self, self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        if any(isinstance(a, Seg) for a in args):
            if not (isinstance(fn, VFunc) or isinstance(fn, type) and not issubclass(fn, (BaseException, tuple)) and
                    (fn.__module__ or '').split('.')[0] in SCOPE_MODULES or isinstance(fn, types.FunctionType) and in_scope(fn)):
                raise Unsupported('a sequence of unknown length where a known one is needed')
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in models.dict_items_concrete(self, self.ev(k.value, env)):
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        if fn is super and len(args) == 2:
            return SuperV(args[1], args[0])
        if fn is locals or fn is eval or fn is exec:
            raise Unsupported('locals/eval/exec')
        return self.call(fn, args, kwargs)

    def zero_super(self, env):
        e = env
        while e is not None and e.parent is not None and '__class__' not in e.vars:
            e = e.parent
        cls = None
        x = env
        while x is not None:
            if '__class__' in x.vars:
                cls = x.vars['__class__']
                break
            x = x.parent
        if cls is None:
            raise Unsupported('super() without class cell')
        return SuperV(env.first, cls)

    def comp_env(self, env, node):
        names = set()
        for g in node.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        c = Env(frozenset(names), env, env.glob)
        c.comp = True
        c.first = getattr(env, 'first', None)
        return c

    def comp(self, node, env, emit, collect=None, first=None):
        c = self.comp_env(env, node)
        if collect is not None and len(node.generators) == 1:
            c.collect, c.made_by = collect, node

        def gen(i):
            if i == len(node.generators):
                emit(c)
                return
            g = node.generators[i]
            it = first if first is not None and i == 0 else self.ev(g.iter, env if i == 0 else c)

            def body(v):
                self.assign(g.target, v, c)
                for cond in g.ifs:
                    if not truth(self.ev(cond, c)):
                        return
                gen(i + 1)
            self.iterate(it, body, (node, i), c)
        gen(0)

    def e_ListComp(self, e, env):
        if copies(e):
            src = force(self.ev(e.generators[0].iter, env))
            if not copies_pairs(e) or isinstance(src, DictView):
                return self.call(self.ctx.wrap(list), [src])
            return self.list_of(e, env, src)
        return self.list_of(e, env)

    def list_of(self, e, env, first=None):
        out = VList()
        self.comp(e, env, lambda c: out.append(self.ev(e.elt, c)), out, first)
        return out

    def again(self, node, env, gen, count, other):
        """the elements that a comprehension without side effects made of the elements of a segment: made again when one is needed,
        unless something they may depend on was changed since (then: other)"""
        ctx = self.ctx
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(node)):
            return other
        stamp, envs = ctx.wstamp, []
        def named():
            return [(k, id(v)) for m in (ctx.modvars, ctx.native_fields) for k, v in m.items()]
        names, keep = named(), (dict(ctx.modvars), dict(ctx.native_fields))
        e = env
        while e is not None:
            envs.append(e)
            e = e.parent
        p = None
        for e in reversed(envs):
            q = Env.__new__(Env)
            q.__dict__.update(e.__dict__)
            q.vars, q.parent = dict(e.vars), p
            p = q
        env, g = p, node.generators[0]
        used = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}

        def roots():
            e = env
            while e is not None:
                for k in used:
                    if k in e.vars:
                        yield e.vars[k]
                e = e.parent
            for _, v in ctx.native_wrap.values():
                yield v
            for m in (ctx.modvars, ctx.native_fields):
                for v in m.values():
                    yield v

        def make():
            if keep and named() != names or ctx.wstamp != stamp and changed_since(ctx, roots(), stamp):
                return other()
            i = ctx.fresh('iter', z3.IntSort())
            ctx.add(i >= 0)
            if count is not None:
                ctx.assume(i < int_term(count))
            v = gen(i)
            c = self.comp_env(env, node)
            try:
                self.assign(g.target, v, c)
                for cond in g.ifs:
                    if not truth(self.ev(cond, c)):
                        raise PathDone()
                return self.ev(node.elt, c)
            except PyRaise:
                raise PathDone()        # the loop itself would have raised it
        return make

    def e_SetComp(self, e, env):
        d = VDict(cls=set)
        d.is_set = True
        self.comp(e, env, lambda c: d.set(force(self.ev(e.elt, c)), True))
        return d

    def copy_without(self, e, env):
        """{k: v for k, v in X.items() if k != A ...}: a copy of X without A ...; None if it is not that"""
        g = e.generators[0]
        c, t = g.iter, g.target
        if len(e.generators) > 1 or not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'items' and not c.args
                                         and not c.keywords and isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2):
            return None
        if not all(isinstance(x, ast.Name) for x in (*t.elts, e.key, e.value)) or \
                (t.elts[0].id, t.elts[1].id) != (e.key.id, e.value.id) or e.key.id == e.value.id:
            return None
        out = []
        for f in g.ifs:
            if isinstance(f, ast.UnaryOp) and isinstance(f.op, ast.Not) and isinstance(f.operand, ast.Compare) and len(f.operand.ops) == 1 and \
                    isinstance(f.operand.ops[0], ast.Eq):
                f = f.operand
            elif not (isinstance(f, ast.Compare) and len(f.ops) == 1 and isinstance(f.ops[0], ast.NotEq)):
                return None
            ab = [f.left, f.comparators[0]]
            other = [x for x in ab if not (isinstance(x, ast.Name) and x.id == e.key.id)]
            if len(other) != 1 or not isinstance(other[0], (ast.Name, ast.Constant)) or isinstance(other[0], ast.Name) and other[0].id == e.value.id:
                return None
            out.append(other[0])
        src = force(self.ev(c.func.value, env))
        keys = [force(self.ev(x, env)) for x in out]
        if not isinstance(src, VDict) or src.cls not in (dict, collections.OrderedDict) or src.is_set or \
                any(not isinstance(k, (str, SStr, int, type(None))) for k in keys):
            d = VDict()
            c = self.comp_env(env, e)

            def body(v):
                self.assign(t, v, c)
                if all(truth(self.ev(f, c)) for f in g.ifs):
                    d.set(force(self.ev(e.key, c)), self.ev(e.value, c))
            self.iterate(self.call(self.getattr(src, 'items'), []), body, (e, 0), c)
            return d
        d = src.copy_of()
        d.cls = dict
        for k in keys:
            if d.lookup(k)[0]:
                d.delete(k)
        return d

    def e_DictComp(self, e, env):
        d = self.copy_without(e, env)
        if d is not None:
            return d
        d = VDict()
        self.comp(e, env, lambda c: d.set(force(self.ev(e.key, c)), self.ev(e.value, c)))
        return d

    def e_GeneratorExp(self, e, env):
        return GenV(e, env, self.ev(e.generators[0].iter, env))

    def e_Starred(self, e, env):
        raise Unsupported('starred expression')


def changed_since(ctx, roots, stamp):
    """may something reachable have been changed since?"""
    todo, seen = list(roots), set()
    while todo:
        v = todo.pop()
        if id(v) in seen or v is None or isinstance(v, (str, int, float, bytes, core.Sym)):
            continue
        seen.add(id(v))
        if isinstance(v, VAny):
            if not v.done:
                continue
            v = force(v)
            todo.append(v)
            continue
        if isinstance(v, Heap) and ctx.wlast.get(v.birth, 0) > stamp:
            return True
        if isinstance(v, (tuple, list, frozenset, set)):
            todo.extend(v)
        elif isinstance(v, VObj):
            todo.extend(v.fields.values())
        elif isinstance(v, VList):
            todo.extend(v.parts)
        elif isinstance(v, VDict):
            for op in v.ops:
                todo.extend(op[1:])
            if v.base is not None:
                for kv in v.base.entries:
                    todo.extend(kv)
        elif isinstance(v, VFunc):
            e = v.env
            while e is not None:
                if ctx.wlast.get(e.birth, 0) > stamp:
                    return True
                todo.extend(e.vars.values())
                e = e.parent
        elif isinstance(v, VBound):
            todo.extend((v.self_, v.fn))
        elif isinstance(v, BMethod):
            todo.append(v.obj)
        elif isinstance(v, core.Seg):
            continue
        elif isinstance(v, ModelObj):
            todo.extend(object.__getattribute__(v, '__dict__').values())
        elif isinstance(v, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, LazySeq)):
            continue
        else:
            return True
    return False


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.Div: '/', ast.LShift: '<<',
       ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.Pow: '**'}
