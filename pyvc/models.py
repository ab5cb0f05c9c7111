"""pyvc models: the semantics of Python's builtins and of the library functions the code under verification calls.

These are the assumed contracts on dependencies (part of the trusted base).  They are cross-checked by running every unit natively
as well (harness.py): a wrong model shows up as a native run that fails a check that was proved.
"""
import re
import asyncio
import builtins
import contextlib
import copy
import functools
import io
import itertools
import json
import logging
import os
import random
import socket
import string
import struct
import threading
import time
import traceback
import types
import urllib.parse
import tornado.httputil

import z3

from . import core
from .core import (Atom, BMethod, BPart, BaseMap, Heap, LazySeq, ModelObj, Opaque, PyRaise, SBool, SBytes, SInt, SNum, SReal, SStr, Seg,
                   Sym, UNBOUND, Unsupported, VAny, VBound, VByteArray, VDict, VFunc, VList, VObj, b_and, b_or, binop, blength,
                   bparts, bterm, bytes_split_at, compare, eq, fold_bool, fold_int, force, int_term, is_intish, is_numeric,
                   is_realish, is_str, is_sym, mk_bytes, mk_str, neg, real_term, same, slen, sparts, sterm, str_len, str_lower,
                   str_startswith, str_sub, truth)
from .interp import DictView, EnumV, FilterV, GenV, Interp, IterV, MapV, RangeV, SuperV, ZipV, BreakSignal, CtxFn, GenFn, Once, copies, copies_pairs

MODELS = {}


def C():
    return core.cur()


def model(*fns):
    def deco(f):
        for x in fns:
            MODELS[x] = f
        return f
    return deco


def noop(*a, **k):
    return None


noop.__pyvc_native__ = True


def concrete(v):
    """native value without any symbolic part"""
    if isinstance(v, (Sym, Heap, LazySeq, VAny, VFunc, VBound, BMethod, DictView, RangeV, Once, CtxFn)):
        return False
    if isinstance(v, tuple):
        return all(concrete(x) for x in v)
    return True


# ------------------------------------------------------------------ types
def pytype(o):
    o = force(o)
    if isinstance(o, core.Dead):
        o.use()
    if isinstance(o, (core.SubStr, core.SubInt, core.SubReal)):
        return o.pycls
    if isinstance(o, SStr):
        return str
    if isinstance(o, SBool):
        return bool
    if isinstance(o, SInt):
        return int
    if isinstance(o, SReal):
        return float
    if isinstance(o, SBytes):
        return bytes
    if isinstance(o, VByteArray):
        return bytearray
    if isinstance(o, VList):
        return tuple if o.is_tuple else list
    if isinstance(o, LazySeq):
        return list
    if isinstance(o, VDict):
        return (o.cls if o.cls is frozenset else set) if o.is_set else o.cls
    if isinstance(o, VObj):
        return o.cls
    if isinstance(o, Opaque):
        return o.pycls
    if isinstance(o, ModelObj):
        return getattr(type(o), 'pycls', type(o))
    if isinstance(o, (VFunc, CoroutineFn)):
        return types.FunctionType
    if isinstance(o, VBound):
        return types.MethodType
    if isinstance(o, BMethod):
        return types.BuiltinMethodType
    if isinstance(o, DictView):
        return type({}.keys()) if o.kind == 'keys' else type({}.values()) if o.kind == 'values' else type({}.items())
    if isinstance(o, (GenV, GenFn)):
        return types.GeneratorType
    if isinstance(o, RangeV):
        return range
    return type(o)


def unsupported(what):
    raise Unsupported(str(what))


def refuse(o, message, *dunders):
    """TypeError, if objects like o really lack these methods"""
    t = pytype(o)
    if any(getattr(t, d, None) is not None for d in dunders):
        raise Unsupported('%s of %s' % (dunders[0], t.__name__))
    C().raise_py(TypeError, message % t.__name__ if '%s' in message else message)


def has_method(o, name):
    t = pytype(o)
    if isinstance(o, LazySeq):
        return hasattr(list, name)
    if isinstance(o, (SInt, SReal, SBool)) and name in ('real', 'imag', 'numerator', 'denominator'):
        return False
    return callable(getattr(t, name, None))


@model(type)
def m_type(I, *a):
    if len(a) == 1:
        return pytype(a[0])
    raise Unsupported('type() with three arguments')


def flat_classes(c):
    c = force(c)
    if isinstance(c, tuple):
        out = ()
        for x in c:
            out += flat_classes(x)
        return out
    if isinstance(c, types.UnionType):
        return tuple(c.__args__)
    if isinstance(c, type) or hasattr(c, '__instancecheck__'):
        return (c,)
    C().raise_py(TypeError, 'isinstance() arg 2 must be a type')


@model(isinstance)
def m_isinstance(I, o, cls):
    o = force(o)
    t = pytype(o)
    return any(issubclass(t, c) for c in flat_classes(cls))


@model(issubclass)
def m_issubclass(I, a, b):
    a = force(a)
    if not isinstance(a, type):
        C().raise_py(TypeError, 'issubclass() arg 1 must be a class')
    return issubclass(a, flat_classes(b))


@model(callable)
def m_callable(I, o):
    o = force(o)
    if isinstance(o, (VFunc, VBound, BMethod, CoroutineFn)):
        return True
    if isinstance(o, VObj):
        return I.class_attr(o.cls, '__call__') is not UNBOUND
    if isinstance(o, (Sym, Heap)) and not isinstance(o, ModelObj):
        return False
    if isinstance(o, Opaque):
        return '__call__' in o.__dict__
    return callable(o)


class _Miss(object):
    pass


MISS = _Miss()


@model(hasattr)
def m_hasattr(I, o, name):
    return get_attr(I, o, name, MISS) is not MISS


def get_attr(I, o, name, default):
    try:
        return I.getattr(o, name, default)
    except PyRaise as e:
        if issubclass(e.cls, AttributeError) and default is not UNBOUND:
            return default
        raise


@model(getattr)
def m_getattr(I, o, name, default=UNBOUND):
    return get_attr(I, o, name, default)


@model(setattr)
def m_setattr(I, o, name, v):
    I.setattr(o, name, v)


@model(delattr)
def m_delattr(I, o, name):
    I.delattr(o, name)


@model(vars)
def m_vars(I, o):
    return I.getattr(o, '__dict__')


@model(id)
def m_id(I, o):
    o = force(o)
    if isinstance(o, Heap):
        return o.birth
    raise Unsupported('id()')


@model(hash)
def m_hash(I, o):
    raise Unsupported('hash()')


@model(print)
def m_print(I, *a, **k):
    return None


# ------------------------------------------------------------------ len, sequences
@model(len)
def m_len(I, o):
    o = force(o)
    if is_str(o):
        return str_len(o)
    if isinstance(o, (bytes, bytearray, SBytes, VByteArray)):
        return blength(o)
    if isinstance(o, VList):
        return o.length()
    if isinstance(o, LazySeq):
        return o.n
    if isinstance(o, VDict):
        return o.length()
    if isinstance(o, DictView):
        return o.d.length()
    if isinstance(o, RangeV):
        if o.step != 1:
            raise Unsupported('length of a range with a step')
        n = binop('-', o.hi, o.lo)
        if is_sym(n):
            return fold_int(z3.If(n.t > 0, n.t, z3.IntVal(0)))
        return len(range(o.lo, o.hi, o.step))
    if isinstance(o, CharSeq):
        return o.n
    if isinstance(o, VObj):
        if issubclass(o.cls, tuple):
            return len(o.cls._fields)
        a = I.class_attr(o.cls, '__len__')
        if a is not UNBOUND:
            return I.call(a[0], [o])
    if concrete(o) and hasattr(o, '__len__'):
        return len(o)
    if isinstance(o, tuple):
        return len(o)
    refuse(o, 'object of type %s has no len()', '__len__')


def norm_index(i, n):
    """non-negative index term, branching on out of range"""
    ctx = C()
    if isinstance(i, (int, bool)) and isinstance(n, int):
        j = i + n if i < 0 else i
        if j < 0 or j >= n:
            ctx.raise_py(IndexError, 'index out of range')
        return int(j)
    it, nt = int_term(i), int_term(n)
    if isinstance(i, int):
        j = it if i >= 0 else nt + i
    else:
        j = z3.If(it < 0, it + nt, it)
    if not ctx.branch(z3.And(j >= 0, j < nt)):
        ctx.raise_py(IndexError, 'index out of range')
    return fold_int(j)


def getitem(o, i):
    ctx = C()
    I = ctx.interp
    o, i = force(o), (i if isinstance(i, slice) else force(i))
    if isinstance(o, VDict):
        if o.is_set:
            ctx.raise_py(TypeError, 'set object is not subscriptable')
        if isinstance(i, slice):
            if sys.version_info < (3, 12):
                ctx.raise_py(TypeError, 'unhashable type: slice')
            raise Unsupported('slice as a key')
        f, v = o.lookup(i)
        if f:
            return v
        if o.default_factory is not None:
            v = I.call(o.default_factory, [])
            o.set(i, v)
            return v
        raise PyRaise(ctx.mk_exc(KeyError, (i,)))
    if isinstance(i, slice):
        return getslice(o, i)
    if is_str(o):
        if not is_intish(i):
            ctx.raise_py(TypeError, 'string indices must be integers')
        if isinstance(o, str) and isinstance(i, int):
            if not -len(o) <= i < len(o):
                ctx.raise_py(IndexError, 'string index out of range')
            return o[i]
        if isinstance(i, int) and i == 0 and sparts(o) and isinstance(sparts(o)[0], str):
            return sparts(o)[0][0]
        j = norm_index(i, str_len(o))
        return str_sub(o, j, binop('+', j, 1))
    if isinstance(o, VList):
        if not is_intish(i):
            ctx.raise_py(TypeError, 'list indices must be integers or slices')
        if o.concrete():
            n = len(o.parts)
            if isinstance(i, int):
                return o.parts[norm_index(i, n)]
            j = norm_index(i, n)
            if isinstance(j, int):
                return o.parts[j]
            for k in range(n):
                if ctx.branch(int_term(j) == k):
                    return o.parts[k]
            raise core.PathDone()
        j = norm_index(i, o.length())
        i0 = i
        if isinstance(i, int) and i >= 0:
            for p in o.parts:
                if isinstance(p, Seg):
                    k = ctx.must(int_term(p.count) == 0)
                    if k:
                        continue
                    if ctx.branch(int_term(p.count) >= 1):
                        p.take()
                        return getitem(o, i0)
                    continue
                if i == 0:
                    return p
                i -= 1
        elif isinstance(i, int):
            for p in reversed(o.parts):
                if isinstance(p, Seg):
                    if ctx.branch(int_term(p.count) >= 1):
                        p.take(False)
                        return getitem(o, i0)
                    continue
                i += 1
                if i == 0:
                    return p
        elif core.is_intish(i):
            pos = z3.IntVal(0)
            for p in o.parts:
                n = int_term(p.count) if isinstance(p, Seg) else 1
                if ctx.branch(int_term(j) < pos + n):
                    return p.at(fold_int(int_term(j) - pos)) if isinstance(p, Seg) else p
                pos = pos + n
            raise core.PathDone()
        raise Unsupported('index into a symbolic list')
    if isinstance(o, tuple):
        if not is_intish(i):
            ctx.raise_py(TypeError, 'tuple indices must be integers or slices')
        if is_sym(i):
            j = norm_index(i, len(o))
            for k in range(len(o)):
                if isinstance(j, int):
                    return o[j]
                if ctx.branch(j.t == k):
                    return o[k]
            raise core.PathDone()
        return o[norm_index(i, len(o))]
    if isinstance(o, LazySeq):
        if not is_intish(i):
            ctx.raise_py(TypeError, 'list indices must be integers')
        j = norm_index(i, o.n)
        return o.elem(j)
    if isinstance(o, (bytes, bytearray, SBytes, VByteArray)):
        if isinstance(o, VByteArray):
            o = o.b
        if isinstance(o, (bytes, bytearray)):
            return o[norm_index(i, len(o))]
        j = norm_index(i, blength(o))
        p = bytes_split_at(o, j)
        if p is not None:
            q = bparts(p[1])
            if q and isinstance(q[0], bytes):
                return q[0][0]
            if q and q[0].kind == 'int' and q[0].n == 1:
                return SInt(q[0].a)
        raise Unsupported('byte of a symbolic bytes object')
    if isinstance(o, VObj):
        if issubclass(o.cls, tuple):
            return o.fields[o.cls._fields[norm_index(i, len(o.cls._fields))]]
        a = I.class_attr(o.cls, '__getitem__')
        if a is not UNBOUND:
            return I.call(a[0], [o, i])
    if isinstance(o, type) and hasattr(o, '__class_getitem__'):
        return o
    if isinstance(o, ModelObj) and hasattr(o, '__getitem__'):
        return I.native_call(o.__getitem__, [i], {})
    if isinstance(o, (Sym, type(None), int, float, ModelObj, VFunc)):
        refuse(o, "'%s' object is not subscriptable", '__getitem__')
    if concrete(i):
        try:
            return ctx.wrap(o[i])
        except Exception as e:
            raise PyRaise(e)
    raise Unsupported('subscript of %r' % (o,))


def getslice(o, s):
    ctx = C()
    lo, hi, st = force(s.start), force(s.stop), force(s.step)
    if st is not None and st != 1:
        if st == -1 and lo is None and hi is None and isinstance(o, VList) and o.concrete():
            return VList(list(reversed(o.parts)))
        if concrete(o) and all(concrete(x) for x in (lo, hi, st)):
            return o[lo:hi:st]
        raise Unsupported('slice with a step')
    for x in (lo, hi):
        if x is not None and not is_intish(x):
            ctx.raise_py(TypeError, 'slice indices must be integers')
    if is_str(o):
        if isinstance(lo, int) and lo < 0:
            # last -lo characters
            L = str_len(o)
            if isinstance(L, int):
                return str_sub(o, max(0, L + lo), hi)
            if hi is None:
                if ctx.branch(L.t >= -lo):
                    return str_sub(o, SInt(L.t + lo), None)
                return o
            raise Unsupported('negative slice')
        return str_sub(o, lo, hi)
    if isinstance(o, (bytes, bytearray, SBytes, VByteArray)):
        ba = isinstance(o, (VByteArray, bytearray))
        b = o.b if isinstance(o, VByteArray) else bytes(o) if isinstance(o, bytearray) else o
        if hi is not None:
            r = bytes_split_at(b, hi)
            if r is None:
                raise Unsupported('bytes slice')
            b = r[0]
        if lo is not None and not (isinstance(lo, int) and lo == 0):
            r = bytes_split_at(b, lo)
            if r is None:
                raise Unsupported('bytes slice')
            b = r[1]
        return VByteArray(b) if ba else b
    if isinstance(o, tuple):
        if all(x is None or isinstance(x, int) for x in (lo, hi)):
            return o[lo:hi]
        raise Unsupported('symbolic tuple slice')
    if isinstance(o, LazySeq):
        lo0 = lo or 0
        if isinstance(lo0, int) and lo0 >= 0 and hi is None:
            n = binop('-', o.n, lo0)
            n = n if isinstance(n, int) else fold_int(z3.If(n.t > 0, n.t, z3.IntVal(0)))
            return LazySeq(n if not isinstance(n, int) else max(0, n), lambda i: o.elem(binop('+', i, lo0)))
        raise Unsupported('slice of a lazy sequence')
    if isinstance(o, VList):
        if o.concrete() and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return VList(o.parts[lo:hi], o.is_tuple)
        if lo in (None, 0) and hi is None:
            return VList(o.parts, o.is_tuple)
        if isinstance(hi, int) and hi == 0:
            return VList([], o.is_tuple)
        if o.concrete():
            n = len(o.parts)
            out = []
            l = 0 if lo is None else lo
            h = n if hi is None else hi
            for k in range(n):
                # element k is kept iff l' <= k < h' with Python's clamping
                lt, ht = int_term(l), int_term(h)
                lt = z3.If(lt < 0, z3.If(lt + n < 0, z3.IntVal(0), lt + n), lt)
                ht = z3.If(ht < 0, ht + n, ht)
                if ctx.branch(z3.And(lt <= k, k < ht)):
                    out.append(o.parts[k])
            return VList(out, o.is_tuple)
        if isinstance(lo, int) and lo >= 0 and hi is None:
            ps = list(o.parts)
            k = lo
            while k and ps and not isinstance(ps[0], Seg):
                ps.pop(0)
                k -= 1
            if not k:
                return VList(ps, o.is_tuple)
        # a part of a list of unknown elements: arbitrary number of elements in order (over-approximation needs no order)
        raise Unsupported('slice of a symbolic list')
    if isinstance(o, VObj) or isinstance(o, ModelObj) or isinstance(o, Sym) or o is None or isinstance(o, (int, float)):
        refuse(o, "'%s' object is not subscriptable", '__getitem__')
    raise Unsupported('slice of %r' % (o,))


def setitem(o, i, v):
    ctx = C()
    o, i = force(o), (i if isinstance(i, slice) else force(i))
    if isinstance(o, VDict):
        if o.is_set:
            ctx.raise_py(TypeError, "'set' object does not support item assignment")
        o.set(i, v)
        return
    if isinstance(o, VList):
        if o.is_tuple:
            ctx.raise_py(TypeError, "'tuple' object does not support item assignment")
        if isinstance(i, slice):
            if i.start is None and i.stop is None:
                o.setparts(parts_of(ctx.interp, v))
                return
            raise Unsupported('slice assignment')
        if isinstance(i, int):
            if not o.concrete():
                raise Unsupported('assignment into a symbolic list')
            k = norm_index(i, len(o.parts))
            ps = list(o.parts)
            ps[k] = v
            o.setparts(ps)
            return
        raise Unsupported('list assignment')
    if isinstance(o, VObj):
        a = ctx.interp.class_attr(o.cls, '__setitem__')
        if a is not UNBOUND:
            ctx.interp.call(a[0], [o, i, v])
            return
    if isinstance(o, ModelObj) and hasattr(o, '__setitem__'):
        return ctx.interp.native_call(o.__setitem__, [i, v], {})
    if isinstance(o, (Sym, type(None), int, float, str, tuple, bytes, VObj, ModelObj)):
        refuse(o, "'%s' object does not support item assignment", '__setitem__')
    raise Unsupported('item assignment on %r' % (o,))


def delitem(o, i):
    ctx = C()
    o, i = force(o), (i if isinstance(i, slice) else force(i))
    if isinstance(o, VDict):
        if o.is_set:
            ctx.raise_py(TypeError, "'set' object doesn't support item deletion")
        f, _ = o.lookup(i)
        if not f:
            raise PyRaise(ctx.mk_exc(KeyError, (i,)))
        o.delete(i)
        return
    if isinstance(o, VList):
        if isinstance(i, slice):
            if i.start is None and i.stop is None:
                o.setparts([])
                return
            if o.concrete() and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                ps = list(o.parts)
                del ps[i]
                o.setparts(ps)
                return
            raise Unsupported('del slice')
        if isinstance(i, int) and o.concrete():
            k = norm_index(i, len(o.parts))
            ps = list(o.parts)
            ps.pop(k)
            o.setparts(ps)
            return
    if isinstance(o, VByteArray) and isinstance(i, slice) and i.start in (None, 0) and i.step is None:
        r = bytes_split_at(o.b, i.stop) if i.stop is not None else (o.b, b'')
        if r is not None:
            o.setb(r[1])
            return
    raise Unsupported('del item')


def contains(I, c, x):
    ctx = C()
    c, x = force(c), force(x)
    if isinstance(c, VDict):
        if c.is_set and isinstance(x, VDict) and x.is_set:
            raise Unsupported('a set in a set')
        return c.lookup(x)[0]
    if isinstance(c, DictView):
        if c.kind == 'keys':
            return c.d.lookup(x)[0]
        if c.kind == 'items' and isinstance(x, tuple) and len(x) == 2:
            f, v = c.d.lookup(x[0])
            return b_and(f, eq(v, x[1]))
        return in_seq(I, c, x)
    if is_str(c):
        if not is_str(x):
            ctx.raise_py(TypeError, "'in <string>' requires string as left operand")
        return str_contains(c, x)
    if isinstance(c, (tuple, list, frozenset, set, range)) or isinstance(c, (VList, LazySeq, Once, RangeV)):
        return in_seq(I, c, x)
    if isinstance(c, dict):
        return contains(I, ctx.wrap(c), x)
    if isinstance(c, (bytes, SBytes, VByteArray)):
        raise Unsupported('in bytes')
    if isinstance(c, VObj):
        a = I.class_attr(c.cls, '__contains__')
        if a is not UNBOUND and isinstance(a[0], (types.FunctionType, VFunc)):
            return truth(I.call(a[0], [c, x]))
        if issubclass(c.cls, tuple):
            return in_seq(I, tuple(c.fields[f] for f in c.cls._fields), x)
    if isinstance(c, ModelObj) and hasattr(c, '__contains__'):
        return I.native_call(c.__contains__, [x], {})
    if c is None or isinstance(c, (Sym, int, float, VObj, ModelObj)):
        refuse(c, "argument of type '%s' is not iterable", '__contains__', '__iter__', '__getitem__')
    if concrete(x):
        try:
            return x in c
        except Exception as e:
            raise PyRaise(e)
    raise Unsupported('in %r' % (c,))


def in_seq(I, c, x):
    if isinstance(c, (set, frozenset)):
        c = sorted(c, key=repr)
    if isinstance(c, (tuple, list)):
        return b_or(*[_eqb(y, x) for y in c])
    if isinstance(c, VList) and c.concrete():
        return b_or(*[_eqb(y, x) for y in c.parts])
    found = []

    def body(v):
        if truth(eq(v, x)):
            found.append(1)
            raise BreakSignal()
    try:
        consume(I, c, body, ('in', id(c)))
    except BreakSignal:
        return True
    return False


def _eqb(a, b):
    r = eq(a, b)
    return r if isinstance(r, (bool, SBool)) else truth(r)


def str_contains(s, x):
    if isinstance(s, str) and isinstance(x, str):
        return x in s
    ps = sparts(s)
    if isinstance(x, str):
        if x == '':
            return True
        if any(isinstance(p, str) and x in p for p in ps):
            return True
        if all(isinstance(p, str) or all(p.excludes(c) for c in x) for p in ps):
            # every occurrence would have to lie in the literals alone
            return False
        if len(x) == 1:
            return b_or(*[SBool(core.scontains(p.t, core.lit(x))) for p in ps if isinstance(p, Atom) and not p.excludes(x)])
    t = core.scontains(sterm(s), sterm(x))
    return SBool(t)


def unpack(I, v, n):
    ctx = C()
    v = force(v)
    if isinstance(v, (tuple, list)):
        items = list(v)
    elif isinstance(v, VList) and v.concrete():
        items = list(v.parts)
    elif isinstance(v, VList):
        if truth(eq(v.length(), n)):
            out = []
            for p in v.parts:
                if isinstance(p, Seg):
                    c = None
                    for k in range(n + 1):
                        if ctx.branch(int_term(p.count) == k):
                            c = k
                            break
                    if c is None:
                        raise core.PathDone()
                    for _ in range(c):
                        out.append(p.take())
                        p = p.refined[1]
                else:
                    out.append(p)
            if len(out) != n:
                raise core.PathDone()
            return out
        ctx.raise_py(ValueError, 'wrong number of values to unpack')
    elif isinstance(v, LazySeq):
        if truth(eq(v.n, n)):
            return [v.elem(k) for k in range(n)]
        ctx.raise_py(ValueError, 'wrong number of values to unpack (expected %d)' % n)
    else:
        items = items_list(I, v)
    if len(items) != n:
        ctx.raise_py(ValueError, 'wrong number of values to unpack (expected %d)' % n)
    return items


def consume(I, it, body, site):
    """run body over the elements of anything iterable, including generator expressions"""
    it = force(it)
    if isinstance(it, (GenV, GenFn)):
        it.consume(I, body)
        return
    if isinstance(it, FilterV):
        if not it.use():
            return

        def b2(v):
            if truth(v if it.fn is None else I.call(it.fn, [v])):
                body(v)
        consume(I, it.it, b2, site)
        it.done = True
        return
    if isinstance(it, MapV) and isinstance(force(it.it), (GenV, GenFn, FilterV, MapV)):
        if it.use():
            consume(I, it.it, lambda v: body(I.call(it.fn, [v])), site)
            it.done = True
        return
    I.iterate(it, body, site)


def parts_of(I, v):
    """parts (elements and segments) of a new list built from an iterable"""
    v = force(v)
    ctx = C()
    if isinstance(v, VList):
        return list(v.parts)
    if isinstance(v, (tuple, list)):
        return list(v)
    if isinstance(v, LazySeq):
        from .loops import known_number
        n = known_number(ctx, v.n)
        if n is not None:
            return [v.elem(i) for i in range(n)]

        def g():
            i = ctx.fresh('ix', z3.IntSort())
            ctx.assume(z3.And(i >= 0, i < int_term(v.n)))
            return v.elem(SInt(i))
        return [Seg(v.n, g)]
    if isinstance(v, (VDict, DictView)):
        d, kind = (v, 'keys') if isinstance(v, VDict) else (v.d, v.kind)
        out = lambda k, x: {'keys': k, 'values': x, 'items': (k, x)}[kind]     # noqa: E731
        if d.simple():
            return [out(k, x) for k, x in d.entries()]
        from .loops import dict_phases
        res, made = [], {}
        for ph in dict_phases(ctx, d, True):
            if ph[0] == 'elem':
                res.append(out(*ph[1]))
            else:
                res.append(Seg(ph[2], made.setdefault(id(ph[1]), (lambda g: lambda: out(*g(None)))(ph[1]))))
        if kind == 'items':
            ctx.whole[tuple(id(p) for p in res)] = (res, d.copy_of())      # every entry of d as it is now
        return res
    if isinstance(v, GenV):
        if not v.use():
            return []
        v.done = True
        if copies(v.node) and (not copies_pairs(v.node) or isinstance(force(v.first), DictView)):
            return parts_of(I, v.first)
        return list(I.list_of(v.node, v.env, v.first).parts)
    out = VList()
    consume(I, v, lambda x: out.append(x), ('list', 'parts'))
    return list(out.parts)


def items_list(I, v):
    ps = parts_of(I, v)
    if any(isinstance(p, Seg) for p in ps):
        raise Unsupported('a sequence of unknown length where a known one is needed')
    return ps


def dict_update(I, d, src):
    ctx = C()
    src = force(src)
    if isinstance(src, dict):
        src = ctx.wrap(src)
    if isinstance(src, GenV) and copies(src.node) and (not copies_pairs(src.node) or isinstance(force(src.first), DictView)):
        if not src.use():
            return
        src.done = True
        src = force(src.first)
    if isinstance(src, DictView) and src.kind == 'items':
        src = src.d
    if isinstance(src, VList):
        w = ctx.whole.get(tuple(id(p) for p in src.parts))
        src = w[1] if w is not None else src
    if isinstance(src, VDict) and not src.is_set:
        if src.simple():
            for k, v in src.entries():
                d.set(k, v)
            return
        if d.simple() and not d.entries() and not d.is_set:
            d.note()
            src = src.copy_of()
            d.base = src.base
            d.ops = src.ops
            return

        def body(kv):
            d.set(kv[0], kv[1])
        I.iterate(DictView(src, 'items'), body, ('update', 'd'))
        return
    if isinstance(src, VObj) and I.class_attr(src.cls, 'keys') is not UNBOUND:
        raise Unsupported('update from object')

    def body2(kv):
        kv = force(kv)
        if kv is None or is_numeric(kv):
            ctx.raise_py(TypeError, 'cannot convert dictionary update sequence element to a sequence')
        if is_str(kv) and truth(compare('!=', str_len(kv), 2)):
            ctx.raise_py(ValueError, 'dictionary update sequence element has the wrong length')
        k, v = unpack(I, kv, 2)
        d.set(force(k), v)
    consume(I, src, body2, ('update', 'p'))


def dict_items_concrete(I, d):
    d = force(d)
    if isinstance(d, dict):
        return list(d.items())
    if isinstance(d, VDict) and d.simple():
        out = []
        for k, v in d.entries():
            k = force(k)
            if not isinstance(k, str):
                if is_str(k):
                    raise Unsupported('keyword arguments with symbolic names')
                C().raise_py(TypeError, 'keywords must be strings')
            out.append((k, v))
        return out
    raise Unsupported('keyword arguments of unknown names')


# ------------------------------------------------------------------ str / repr / format
def real_str(t):
    f = z3.Function('fstr', z3.RealSort(), core.StrS)
    return SStr((Atom(f(t), {'minlen': 1, 'only': frozenset('0123456789.-+einfa')}),))


def to_str(I, x):
    ctx = C()
    x = force(x)
    if isinstance(x, core.SubStr):
        return SStr(x.parts)
    if is_str(x):
        return x
    if isinstance(x, SBool):
        return 'True' if truth(x) else 'False'
    if isinstance(x, SInt):
        return core.fmt_dec(x)
    if isinstance(x, SReal):
        return real_str(x.t)
    if concrete(x):
        try:
            return str(x)
        except Exception as e:
            raise PyRaise(e)
    if isinstance(x, VObj):
        a = I.class_attr(x.cls, '__str__')
        if a is not UNBOUND and isinstance(a[0], (types.FunctionType, VFunc)):
            r = force(I.call(a[0], [x]))
            if not is_str(r):
                ctx.raise_py(TypeError, '__str__ returned non-string')
            return r
        if issubclass(x.cls, BaseException):
            args = x.fields.get('args', ())
            if len(args) == 0:
                return ''
            if len(args) == 1 and not issubclass(x.cls, KeyError):
                return to_str(I, args[0])
            return opaque_text(I, x)
        return to_repr(I, x)
    if isinstance(x, ModelObj):
        s = getattr(type(x), '__str__', None)
        if s is not None and s is not object.__str__ and not isinstance(x, Opaque):
            return I.native_call(x.__str__, [], {})
        return opaque_text(I, x)
    return to_repr(I, x)


def opaque_text(I, x):
    ctx = C()
    k = ('text', id(x))
    if k not in ctx.memo:
        ctx.memo[k] = (x, ctx.new_str('text'))
    return ctx.memo[k][1]


def to_repr(I, x):
    x = force(x)
    if concrete(x):
        try:
            return repr(x)
        except Exception as e:
            raise PyRaise(e)
    if isinstance(x, (SInt, SBool, SReal)):
        return to_str(I, x)
    if isinstance(x, VObj):
        a = I.class_attr(x.cls, '__repr__')
        if a is not UNBOUND and isinstance(a[0], types.FunctionType) and a[1] is not object:
            from .interp import in_scope
            if in_scope(a[0]):
                return I.call(a[0], [x])
    return opaque_text(I, x)


def fmt(I, x, spec):
    ctx = C()
    x, spec = force(x), force(spec)
    if not isinstance(spec, str):
        raise Unsupported('symbolic format spec')
    if spec == '':
        return to_str(I, x)
    if concrete(x):
        try:
            return format(x, spec)
        except Exception as e:
            raise PyRaise(e)
    if isinstance(x, SBool):
        x = SInt(int_term(x))
    kind = spec[-1]
    if isinstance(x, SInt):
        if kind == 'x':
            h = core.fmt_hex(x)
            w = spec[:-1]
            if w == '':
                return h
            if w[0] == '0' and w[1:].isdigit():
                if len(sparts(h)) == 1:
                    return core.zfill(h, int(w))
                return ctx.uf_str('padneg' + w, h)
        if kind == 'd' and spec == 'd':
            return core.fmt_dec(x)
        return ctx.uf_str('fmt_' + spec, x)
    if isinstance(x, SReal):
        if kind in 'xdobcX':
            ctx.raise_py(ValueError, "Unknown format code for object of type 'float'")
        f = z3.Function('ffmt_' + spec, z3.RealSort(), core.StrS)
        return SStr((Atom(f(x.t), {'minlen': 1}),))
    if is_str(x):
        if kind in 'xdobcXfFeEgG%':
            ctx.raise_py(ValueError, "Unknown format code for object of type 'str'")
        if spec == 's':
            return x
        return ctx.uf_str('sfmt_' + spec, x)
    if isinstance(x, VObj) and I.class_attr(x.cls, '__format__') is not UNBOUND and \
            isinstance(I.class_attr(x.cls, '__format__')[0], types.FunctionType):
        raise Unsupported('__format__')
    ctx.raise_py(TypeError, 'unsupported format string passed to %s.__format__' % pytype(x).__name__)


def percent(I, f, args):
    """f % args for a literal f"""
    ctx = C()
    args = force(args)
    mapping = None
    if isinstance(args, VList) and args.is_tuple:
        args = tuple(items_list(I, args))
    if isinstance(args, VObj) and issubclass(args.cls, tuple):
        args = tuple(args.fields[n] for n in args.cls._fields)
    if isinstance(args, tuple):
        vals = list(args)
    else:
        vals = [args]
        if isinstance(args, VDict):
            mapping = args
    if isinstance(f, SStr):
        raise Unsupported('symbolic %-format')
    out = []
    i = 0
    k = 0
    n = len(f)
    used_map = False
    while i < n:
        j = f.find('%', i)
        if j < 0:
            out.append(f[i:])
            break
        out.append(f[i:j])
        j += 1
        key = None
        if j < n and f[j] == '(':
            e = f.index(')', j)
            key = f[j + 1:e]
            j = e + 1
        st = j
        while j < n and f[j] in '#0- +':
            j += 1
        while j < n and (f[j].isdigit() or f[j] in '.*'):
            j += 1
        spec = f[st:j]
        if j >= n:
            ctx.raise_py(ValueError, 'incomplete format')
        c = f[j]
        i = j + 1
        if c == '%':
            out.append('%')
            continue
        if key is not None:
            if mapping is None:
                ctx.raise_py(TypeError, 'format requires a mapping')
            v = getitem(mapping, key)
            used_map = True
        else:
            if k >= len(vals):
                ctx.raise_py(TypeError, 'not enough arguments for format string')
            v = vals[k]
            k += 1
        v = force(v)
        if concrete(v) and not (isinstance(v, tuple)):
            try:
                out.append(('%' + spec + c) % (v,))
                continue
            except Exception as e:
                raise PyRaise(e)
        if c in 's':
            s = to_str(I, v)
        elif c in 'ra':
            s = to_repr(I, v)
        elif c in 'di':
            if is_realish(v):
                v = m_int(I, v)
            if not is_intish(v):
                ctx.raise_py(TypeError, '%d format: a real number is required, not ' + pytype(v).__name__)
            s = core.fmt_dec(SInt(int_term(v)))
        elif c in 'xX':
            if not is_intish(v):
                ctx.raise_py(TypeError, '%x format: an integer is required')
            s = core.fmt_hex(SInt(int_term(v)))
            if c == 'X':
                raise Unsupported('%X')
        elif c in 'fFeEgG':
            if not is_numeric(v):
                ctx.raise_py(TypeError, 'must be real number')
            s = fmt(I, SReal(real_term(v)), spec + c if spec else c)
            spec = ''
        else:
            raise Unsupported('format %' + c)
        if spec:
            if spec[0] == '0' and spec[1:].isdigit() and c in 'xd' and len(sparts(s)) == 1 and c == 'x':
                s = core.zfill(s, int(spec))
            elif spec.startswith('.') and c == 's' and spec[1:].isdigit():
                s = str_sub(s, 0, int(spec[1:]))
            else:
                s = ctx.uf_str('pct' + spec + c, s)
        out.append(s)
    if k < len(vals) and not used_map and mapping is None:
        ctx.raise_py(TypeError, 'not all arguments converted during string formatting')
    return mk_str(out)


def str_format(I, f, args, kw):
    if isinstance(f, SStr):
        raise Unsupported('symbolic format string')
    ctx = C()
    out = []
    auto = 0
    try:
        fields = list(string.Formatter().parse(f))
    except ValueError as e:
        raise PyRaise(e)
    for litpart, name, spec, conv in fields:
        out.append(litpart)
        if name is None:
            continue
        head = name
        rest = ''
        for i, ch in enumerate(name):
            if ch in '.[':
                head, rest = name[:i], name[i:]
                break
        if head == '':
            idx = auto
            auto += 1
        elif head.isdigit():
            idx = int(head)
        else:
            idx = None
        if idx is None:
            if head not in kw:
                raise PyRaise(ctx.mk_exc(KeyError, (head,)))
            v = kw[head]
        else:
            if idx >= len(args):
                ctx.raise_py(IndexError, 'Replacement index out of range')
            v = args[idx]
        while rest:
            if rest[0] != '.':
                raise Unsupported('format field indexing')
            k = len(rest)
            for i, ch in enumerate(rest[1:], 1):
                if ch in '.[':
                    k = i
                    break
            v = I.getattr(v, rest[1:k])
            rest = rest[k:]
        if conv == 'r':
            v = to_repr(I, v)
        elif conv == 's':
            v = to_str(I, v)
        sp = spec
        if sp and '{' in sp:
            sp = str_format(I, sp, args[auto:], kw)
        out.append(fmt(I, v, sp or ''))
    return mk_str(out)


@model(format)
def m_format(I, x, spec=''):
    return fmt(I, x, spec)


@model(str)
def m_str(I, x='', encoding=None, errors=None):
    x = force(x)
    if encoding is not None:
        return decode(I, x, encoding, errors or 'strict')
    return to_str(I, x)


@model(repr)
def m_repr(I, x):
    return to_repr(I, x)


@model(ascii)
def m_ascii(I, x):
    return to_repr(I, x)


@model(chr)
def m_chr(I, x):
    x = force(x)
    if isinstance(x, int):
        return chr(x)
    return C().uf_str('chr', x)


@model(ord)
def m_ord(I, x):
    x = force(x)
    if isinstance(x, (str, bytes)):
        try:
            return ord(x)
        except Exception as e:
            raise PyRaise(e)
    raise Unsupported('ord')


@model(hex)
def m_hex(I, x):
    return mk_str(['0x', core.fmt_hex(x)]) if is_sym(force(x)) else hex(x)


# ------------------------------------------------------------------ numbers
def hex_parts(x):
    """numeric value of a rope made of hex digits only, or None"""
    ps = sparts(x)
    if len(ps) == 1 and isinstance(ps[0], Atom) and 'hexof' in ps[0].meta:
        return ps[0].meta['hexof']
    if len(ps) == 2 and ps[0] == '-' and isinstance(ps[1], Atom) and 'hexof' in ps[1].meta:
        return -ps[1].meta['hexof']
    return None


def m_int_type(I, x=0, base=None):
    return m_int(I, x, base)


@model(int)
def m_int(I, x=0, base=None):
    ctx = C()
    x, base = force(x), force(base)
    if base is not None:
        if not (is_str(x) or isinstance(x, (bytes, SBytes, VByteArray))):
            ctx.raise_py(TypeError, "int() can't convert non-string with explicit base")
        if isinstance(x, (str, bytes)) and isinstance(base, int):
            try:
                return int(x, base)
            except Exception as e:
                raise PyRaise(e)
        if base == 16 and is_str(x):
            h = hex_parts(x)
            if h is not None:
                return fold_int(h)
            t = sterm(x)
            if truth(SBool(core.ishex(t))):
                return SInt(core.hexval(t))
            ctx.raise_py(ValueError, 'invalid literal for int() with base 16')
        if base == 10 and is_str(x):
            return m_int(I, x)
        raise Unsupported('int() with this base')
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(int_term(x))
    if isinstance(x, core.SubInt):
        return SInt(x.t)
    if isinstance(x, float):
        try:
            return int(x)
        except Exception as e:
            raise PyRaise(e)
    if isinstance(x, SReal):
        return fold_int(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    if is_str(x):
        if isinstance(x, str):
            try:
                return int(x)
            except Exception as e:
                raise PyRaise(e)
        ps = sparts(x)
        if len(ps) == 1 and 'decof' in ps[0].meta:
            return fold_int(ps[0].meta['decof'])
        t = sterm(x)
        if truth(SBool(core.isdec(t))):
            return SInt(core.decval(t))
        ctx.raise_py(ValueError, 'invalid literal for int()')
    if isinstance(x, VObj):
        for m in ('__int__', '__index__'):
            a = I.class_attr(x.cls, m)
            if a is not UNBOUND and isinstance(a[0], types.FunctionType):
                return I.call(a[0], [x])
    if isinstance(x, ModelObj) and hasattr(type(x), '__int__'):
        return I.native_call(x.__int__, [], {})
    if isinstance(x, (SBytes, VByteArray)):
        raise Unsupported('int of bytes')
    if isinstance(x, bytes):
        try:
            return int(x)
        except Exception as e:
            raise PyRaise(e)
    refuse(x, 'int() argument must be a string or a number, not %s', '__int__', '__index__', '__trunc__', '__buffer__')


@model(float)
def m_float(I, x=0.0):
    ctx = C()
    x = force(x)
    if isinstance(x, (int, float, str)):
        try:
            return float(x)
        except Exception as e:
            raise PyRaise(e)
    if is_numeric(x):
        return SReal(real_term(x))
    if is_str(x):
        t = sterm(x)
        if truth(SBool(core.isflt(t))):
            return SReal(core.fltval(t))
        ctx.raise_py(ValueError, 'could not convert string to float')
    if isinstance(x, ModelObj) and hasattr(type(x), '__float__'):
        return I.native_call(x.__float__, [], {})
    refuse(x, 'float() argument must be a string or a real number, not %s', '__float__', '__index__', '__buffer__')


@model(bool)
def m_bool(I, x=False):
    x = force(x)
    if isinstance(x, (bool, SBool)):
        return x
    if isinstance(x, (SInt, SReal)):
        return fold_bool(x.t != 0)
    return truth(x)


@model(abs)
def m_abs(I, x):
    x = force(x)
    if isinstance(x, (int, float)):
        return abs(x)
    if not is_numeric(x):
        refuse(x, "bad operand type for abs(): '%s'", '__abs__')
    t = real_term(x) if is_realish(x) else int_term(x)
    r = z3.If(t >= 0, t, -t)
    return SReal(r) if is_realish(x) else fold_int(r)


@model(round)
def m_round(I, x, nd=None):
    x = force(x)
    if not is_sym(x):
        return round(x) if nd is None else round(x, nd)
    if nd is None and isinstance(x, SReal):
        f = z3.ToInt(x.t)
        d = x.t - z3.ToReal(f)
        half = core.realval(0.5)
        return fold_int(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))
    raise Unsupported('round')


@model(divmod)
def m_divmod(I, a, b):
    return (binop('//', a, b), binop('%', a, b))


@model(pow)
def m_pow(I, a, b, c=None):
    r = binop('**', a, b)
    return r if force(c) is None else binop('%', r, c)


def minmax(op):
    def f(I, *a, **kw):
        default = kw.get('default', MISS)
        key = kw.get('key')
        items = list(a) if len(a) > 1 else items_list(I, a[0])
        if not items:
            if default is not MISS:
                return default
            C().raise_py(ValueError, 'empty sequence')
        kf = (lambda v: I.call(key, [v])) if key is not None else (lambda v: v)
        best = force(items[0])
        bk = kf(best)
        for x in items[1:]:
            x = force(x)
            xk = kf(x)
            if key is None and is_numeric(x) and is_numeric(best) and (is_sym(x) or is_sym(best)):
                # keep a single term (ints and floats compare by value; the type of the result follows the branch)
                if truth(compare(op, x, best)):
                    best = x
                continue
            if truth(compare(op, xk, bk)):
                best, bk = x, xk
        return best
    return f


MODELS[min] = minmax('<')
MODELS[max] = minmax('>')


@model(sum)
def m_sum(I, it, start=0):
    acc = [start]
    box = VList([start])

    def body(v):
        box.setparts([binop('+', box.parts[0], v)])
    consume(I, it, body, ('sum', 'x'))
    return box.parts[0]


# ------------------------------------------------------------------ iteration builtins
@model(range)
def m_range(I, *a):
    a = [force(x) for x in a]
    for x in a:
        if not is_intish(x):
            C().raise_py(TypeError, 'range() integer expected')
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return RangeV(0, a[0])
    if len(a) == 2:
        return RangeV(a[0], a[1])
    return RangeV(*a)


@model(enumerate)
def m_enumerate(I, it, start=0):
    return EnumV(reify(I, it), start)


def reify(I, it):
    it = force(it)
    if isinstance(it, (GenV, GenFn, FilterV)):
        return VList(parts_of(I, it))
    return it


@model(zip)
def m_zip(I, *its):
    return ZipV([reify(I, x) for x in its])


@model(map)
def m_map(I, fn, *its):
    if len(its) != 1:
        raise Unsupported('map over several sequences')
    return MapV(fn, its[0])


@model(filter)
def m_filter(I, fn, it):
    return FilterV(fn, it)


def turned(parts):
    out = []
    for p in reversed(core.expand(parts)):
        if isinstance(p, Seg):
            q = Seg(p.count, p.gen)         # the same elements in another order
            q.shapes = None if isinstance(p, core.ItemSeg) else getattr(p, 'shapes', None)
            p = q
        out.append(p)
    return out


@model(reversed)
def m_reversed(I, it):
    return m_iter(I, VList(turned(parts_of(I, it))))


@model(iter)
def m_iter(I, it):
    it = force(it)
    if isinstance(it, (IterV, GenV, GenFn, MapV, FilterV, ZipV, EnumV)):
        return it
    return IterV(parts_of(I, it))


@model(next)
def m_next(I, it, default=MISS):
    it = force(it)
    if isinstance(it, IterV):
        ctx = C()
        while True:
            pos = it.pos
            if is_sym(pos):         # from the iterator's own bookkeeping: within bounds
                for k in range(len(it.items) + 1):
                    if ctx.branch(pos.t == k):
                        pos = k
                        break
                else:
                    raise core.PathDone()
            if pos >= len(it.items):
                break
            p = it.items[pos]
            if not isinstance(p, Seg):
                it.pos = pos + 1
                return p
            if is_sym(it.off):
                ctx.add(int_term(it.off) <= int_term(p.count))      # from the iterator's own bookkeeping
            if ctx.branch(int_term(it.off) < int_term(p.count)):
                v = p.at(it.off)
                it.off = binop('+', it.off, 1)
                return v
            it.pos, it.off = pos + 1, 0
        if default is not MISS:
            return default
        C().raise_py(StopIteration)
    if isinstance(it, (GenV, GenFn, MapV, FilterV, ZipV, EnumV)):
        if isinstance(it, GenFn) and not it.plain():
            raise Unsupported('next() of a generator that has to be finished')
        out = []

        def body(v):
            out.append(v)
            raise BreakSignal()
        try:
            consume(I, it, body, ('next', 'x'))
        except BreakSignal:
            return out[0]
        if default is not MISS:
            return default
        C().raise_py(StopIteration)
    refuse(it, "'%s' object is not an iterator", '__next__')


@model(any)
def m_any(I, it):
    def body(v):
        if truth(v):
            raise BreakSignal()
    try:
        consume(I, it, body, ('any', 'x'))
    except BreakSignal:
        return True
    return False


@model(all)
def m_all(I, it):
    def body(v):
        if not truth(v):
            raise BreakSignal()
    try:
        consume(I, it, body, ('all', 'x'))
    except BreakSignal:
        return False
    return True


@model(sorted)
def m_sorted(I, it, key=None, reverse=False):
    items = items_list(I, it)
    out = []
    kf = (lambda v: I.call(key, [v])) if key is not None else (lambda v: v)
    if all(concrete(x) for x in items) and key is None:
        try:
            return VList(sorted(items, reverse=bool(reverse)))
        except Exception as e:
            raise PyRaise(e)
    for x in items:
        i = len(out)
        while i > 0:
            a, b = force(kf(x)), force(kf(out[i - 1]))
            if reverse:
                a, b = b, a
            if truth(compare('<', a, b)):
                i -= 1
            else:
                break
        out.insert(i, x)
    return VList(out)


@model(list)
def m_list(I, it=()):
    return VList(parts_of(I, it))


@model(tuple)
def m_tuple(I, it=()):
    ps = parts_of(I, it)
    if any(isinstance(p, Seg) for p in ps):
        return VList(ps, True)
    return tuple(ps)


def mk_set(I, it, cls=set):
    d = VDict(cls=cls)
    d.is_set = True
    if it is not MISS:
        consume(I, it, lambda v: d.set(force(v), True), ('set', 'x'))
    return d


@model(set)
def m_set(I, it=MISS):
    return mk_set(I, it)


@model(frozenset)
def m_frozenset(I, it=MISS):
    return mk_set(I, it, frozenset)


@model(dict)
def m_dict(I, *a, **kw):
    d = VDict()
    if a:
        src = force(a[0])
        if isinstance(src, dict):
            src = C().wrap(src)
        if isinstance(src, VDict) and not src.is_set:
            d = src.copy_of()
            d.cls = dict
        else:
            dict_update(I, d, src)
    for k, v in kw.items():
        d.set(k, v)
    return d


@model(dict.fromkeys)
def m_fromkeys(I, it, v=None):
    d = VDict()
    consume(I, it, lambda k: d.set(force(k), v), ('fromkeys', 'x'))
    return d


@model(object)
def m_object(I):
    return Opaque('object', object)


@model(bytes)
def m_bytes(I, x=b'', encoding=None, errors=None):
    x = force(x)
    if is_str(x):
        if encoding is None:
            C().raise_py(TypeError, 'string argument without an encoding')
        return encode(I, x, encoding, errors or 'strict')
    if isinstance(x, (bytes, SBytes)):
        return x
    if isinstance(x, VByteArray):
        return x.b
    if isinstance(x, int):
        try:
            return bytes(x)
        except Exception as e:
            raise PyRaise(e)
    if isinstance(x, (VList, tuple)):
        items = items_list(I, x)
        if all(isinstance(force(v), int) for v in items):
            try:
                return bytes([force(v) for v in items])
            except Exception as e:
                raise PyRaise(e)
        raise Unsupported('bytes of symbolic integers')
    refuse(x, "cannot convert '%s' object to bytes", '__bytes__', '__iter__', '__index__', '__buffer__')


@model(bytearray)
def m_bytearray(I, x=b'', encoding=None):
    return VByteArray(m_bytes(I, x, encoding))


@model(staticmethod, classmethod)
def m_static(I, f):
    return f


# ------------------------------------------------------------------ operators on non-numbers
def binop_other(op, a, b):
    ctx = C()
    I = ctx.interp
    if op == '%' and (is_str(a)):
        return percent(I, a, b)
    if op == '+':
        if is_str(a) and is_str(b):
            return mk_str([x for x in (a, b)])
        if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes, VByteArray)):
            return mk_bytes([_b(a), _b(b)])
        if isinstance(a, VByteArray) and isinstance(b, (bytes, SBytes, VByteArray)):
            return VByteArray(mk_bytes([_b(a), _b(b)]))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (VList, LazySeq)) and isinstance(b, (VList, LazySeq)) and pytype(a) is pytype(b):
            return VList(parts_of(I, a) + parts_of(I, b), getattr(a, 'is_tuple', False))
        if isinstance(a, tuple) and isinstance(b, VList) and b.is_tuple or isinstance(b, tuple) and isinstance(a, VList) and a.is_tuple:
            return VList(parts_of(I, a) + parts_of(I, b), True)
    if op == '*':
        for x, n in ((a, b), (b, a)):
            if is_intish(n):
                if is_str(x):
                    if isinstance(n, int):
                        return mk_str([x] * max(0, n))
                    if isinstance(x, str) and len(x) == 1:
                        return rep_str(x, n)
                    raise Unsupported('symbolic repetition')
                if isinstance(x, VList) and isinstance(n, int):
                    return VList(x.parts * max(0, n), x.is_tuple)
                if isinstance(x, tuple) and isinstance(n, int):
                    return x * n
                if isinstance(x, bytes) and isinstance(n, int):
                    return x * n
    setlike = [isinstance(x, VDict) and x.is_set or isinstance(x, DictView) and x.kind != 'values' for x in (a, b)]
    if op == '|' and isinstance(a, VDict) and isinstance(b, VDict) and a.is_set == b.is_set:
        d = a.copy_of()
        d.is_set = a.is_set
        if d.is_set:
            consume(I, b, lambda k: d.set(k, True), ('setop', 'x'))
        else:
            dict_update(I, d, b)
        return d
    if op == '-' and all(setlike):
        return set_op(I, a, b, lambda x: not x)
    if op == '&' and all(setlike):
        return set_op(I, a, b, lambda x: x)
    for x, m, y in ((a, MAGIC.get(op), b), (b, RMAGIC.get(op), a)):
        if isinstance(x, VObj) and m and not (x is b and isinstance(a, VObj) and a.cls is b.cls and a is not b):
            c = I.class_attr(x.cls, m)
            if c is not UNBOUND and isinstance(c[0], types.FunctionType):
                r = I.call(c[0], [x, y])
                if r is not NotImplemented:
                    return r
            elif c is not UNBOUND:
                raise Unsupported('operator %s of %s' % (op, x.cls.__name__))
    if concrete(a) and concrete(b) and not isinstance(a, (ModelObj,)) and op in NATIVE:
        try:
            return NATIVE[op](a, b)
        except Exception as e:
            raise PyRaise(e)
    if not isinstance(a, Opaque) and not isinstance(b, Opaque) and may_combine(op, a, b):
        raise Unsupported('%s of %s and %s' % (op, pytype(a).__name__, pytype(b).__name__))
    ctx.raise_py(TypeError, "unsupported operand type(s) for %s: '%s' and '%s'" % (op, pytype(a).__name__, pytype(b).__name__))


def may_combine(op, a, b):
    """could the operator be defined for such operands?"""
    if op == '%' and (is_str(a) or isinstance(a, (bytes, SBytes, VByteArray))):
        return True
    ka, kb = [None if isinstance(x, (LazySeq, DictView)) else core.eq_kind(x) if not isinstance(x, VObj) else
              None if issubclass(x.cls, (tuple, list, dict, set, str, int, float, bytes)) else 'plain' for x in (a, b)]
    if ka is None or kb is None or 'identity' in (ka, kb):
        return True
    if 'plain' in (ka, kb) or 'none' in (ka, kb):
        return False
    if ka == kb:
        return op in {'number': '+-*/ // % ** << >> & | ^', 'set': '|&-^', 'dict': '|'}.get(ka, '+')
    if op == '*':
        return 'number' in (ka, kb) and not {ka, kb} & {'dict', 'set'} and is_intish(a if ka == 'number' else b)
    return op == '%' and ka in ('str', 'bytes')


import operator  # noqa: E402
NATIVE = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
          '|': operator.or_, '&': operator.and_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift}
NAMES = {'+': 'add', '-': 'sub', '*': 'mul', '|': 'or', '&': 'and', '^': 'xor', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow',
         '<<': 'lshift', '>>': 'rshift'}
MAGIC = {k: '__%s__' % v for k, v in NAMES.items()}
RMAGIC = {k: '__r%s__' % v for k, v in NAMES.items()}


def set_op(I, a, b, keep):
    d = VDict(cls=frozenset if pytype(a) is frozenset else set)
    d.is_set = True

    def body(k):
        if keep(contains(I, b, k)):
            d.set(k, True)
    I.iterate(a if isinstance(a, VDict) else a, body, ('setop', 'x'))
    return d


def _b(v):
    return v.b if isinstance(v, VByteArray) else v


def rep_str(c, n):
    ctx = C()
    t = ctx.uf_str('rep' + c, n).parts[0].t
    return SStr((Atom(t, {'only': frozenset(c), 'rep': (c, n)}),))


def inplace(op, a, b):
    a, b = force(a), force(b)
    ctx = C()
    if op == '+':
        if isinstance(a, VList) and not a.is_tuple:
            a.setparts(a.parts + parts_of(ctx.interp, b))
            return a
        if isinstance(a, VByteArray):
            if not isinstance(b, (bytes, SBytes, VByteArray)):
                ctx.raise_py(TypeError, "can't concat")
            a.setb(mk_bytes([_b(a), _b(b)]))
            return a
    if op == '|' and isinstance(a, VDict) and isinstance(b, (VDict, dict)):
        dict_update(ctx.interp, a, b)
        return a
    return binop(op, a, b)


# ------------------------------------------------------------------ methods of builtin values
def call_method(I, o, name, args, kw):
    try:
        return call_method_(I, o, name, args, kw)
    except IndexError:
        raise Unsupported('method %s with these arguments' % name)


def call_method_(I, o, name, args, kw):
    o = force(o)
    args = [force(a) for a in args]
    kw = {k: force(v) for k, v in kw.items()}
    if isinstance(o, VDict):
        return dict_method(I, o, name, args, kw)
    if isinstance(o, VList):
        return list_method(I, o, name, args, kw)
    if isinstance(o, VByteArray):
        return bytearray_method(I, o, name, args, kw)
    if is_str(o):
        return str_method(I, o, name, args, kw)
    if isinstance(o, (bytes, SBytes)):
        return bytes_method(I, o, name, args, kw)
    if isinstance(o, LazySeq):
        return list_method(I, VList(parts_of(I, o)), name, args, kw)
    if isinstance(o, tuple):
        if name == 'index' or name == 'count':
            return list_method(I, VList(list(o)), name, args, kw)
        if name == '__len__':
            return len(o)
        if name == '__iter__':
            return IterV(list(o))
    if isinstance(o, VObj):
        return obj_method(I, o, name, args, kw)
    if isinstance(o, (SInt, SReal, SBool)):
        if name == 'bit_length':
            n = int_term(o)
            r = C().fresh('bl', z3.IntSort())
            for k in (8, 32, 63, 64, 127, 128):
                C().add(z3.Implies(n >= 0, (r <= k) == (n < (1 << k))))
            C().add(r >= 0)
            return SInt(r)
        if name == 'is_integer' and isinstance(o, SReal):
            return fold_bool(z3.IsInt(o.t))
        if name == 'to_bytes' and isinstance(o, SInt):
            return to_bytes(I, o, *args, **kw)
        if name in ('__eq__',):
            return eq(o, args[0])
        raise Unsupported('method %s of a number' % name)
    if isinstance(o, DictView):
        if name == '__iter__':
            return m_iter(I, o)
        if name == '__len__':
            return o.d.length()
        if name == '__contains__':
            return contains(I, o, args[0])
        raise Unsupported('dict view method ' + name)
    if concrete(o) and all(concrete(a) for a in args) and all(concrete(v) for v in kw.values()):
        try:
            return C().wrap(getattr(o, name)(*args, **kw))
        except Exception as e:
            raise PyRaise(e)
    raise Unsupported('method %s of %r' % (name, o))


def obj_method(I, o, name, args, kw):
    ctx = C()
    if name == '__eq__':
        return o is args[0]
    if name == '__ne__':
        return o is not args[0]
    if name == '__str__':
        return to_str(I, o)
    if name == '__repr__':
        return to_repr(I, o)
    if name == '__setattr__':
        o.setfield(args[0], args[1])
        return None
    if name == '__getattribute__':
        return I.getattr(o, args[0])
    if issubclass(o.cls, BaseException):
        if name == 'with_traceback':
            return o
        if name == '__init__':
            o.setfield('args', tuple(args))
            return None
    if issubclass(o.cls, tuple):
        if name == '_asdict':
            d = VDict()
            for f in o.cls._fields:
                d.set(f, o.fields[f])
            return d
        if name == '_replace':
            return VObj(o.cls, dict(o.fields, **kw))
    if name in ('__hash__', '__init_subclass__', '__init__'):
        return None
    raise Unsupported('method %s of %s' % (name, o.cls.__name__))


def to_bytes(I, o, length=1, byteorder='big', signed=False):
    ctx = C()
    n = int_term(o)
    lo, hi = (-(1 << (8 * length - 1)), 1 << (8 * length - 1)) if signed else (0, 1 << (8 * length))
    if not ctx.branch(z3.And(n >= lo, n < hi)):
        ctx.raise_py(OverflowError, 'int too big to convert')
    if byteorder != 'big' or signed:
        raise Unsupported('to_bytes variant')
    return int_bytes(n, length)


def int_bytes(n, width):
    """big-endian unsigned"""
    return SBytes((BPart('int', z3.simplify(n), width, '>'),))


def dict_method(I, d, name, args, kw):
    ctx = C()
    if d.is_set:
        return set_method(I, d, name, args, kw)
    if name in ('items', 'keys', 'values'):
        return DictView(d, name)
    if name == 'get':
        f, v = d.lookup(args[0])
        return v if f else (args[1] if len(args) > 1 else kw.get('default'))
    if name in ('__getitem__',):
        return getitem(d, args[0])
    if name == '__setitem__':
        d.set(args[0], args[1])
        return None
    if name == '__delitem__':
        return delitem(d, args[0])
    if name == '__contains__':
        return d.lookup(args[0])[0]
    if name == '__len__':
        return d.length()
    if name == 'pop':
        f, v = d.lookup(args[0])
        if f:
            d.delete(args[0])
            return v
        if len(args) > 1:
            return args[1]
        raise PyRaise(ctx.mk_exc(KeyError, (args[0],)))
    if name == 'setdefault':
        f, v = d.lookup(args[0])
        if f:
            return v
        v = args[1] if len(args) > 1 else None
        d.set(args[0], v)
        return v
    if name == 'update':
        if args:
            dict_update(I, d, args[0])
        for k, v in kw.items():
            d.set(k, v)
        return None
    if name in ('copy', '__copy__'):
        return d.copy_of()
    if name == 'clear':
        d.note()
        d.ops.append(('clear',))
        return None
    if name == '__iter__':
        return m_iter(I, d)
    if name == '__eq__':
        return eq(d, args[0])
    if name == 'popitem' and d.simple():
        es = d.entries()
        if not es:
            raise PyRaise(ctx.mk_exc(KeyError, ('popitem(): dictionary is empty',)))
        d.delete(es[-1][0])
        return es[-1]
    raise Unsupported('dict method ' + name)


def set_method(I, d, name, args, kw):
    ctx = C()
    if name == 'add':
        if not d.lookup(args[0])[0]:
            d.set(args[0], True)
        return None
    if name == 'discard':
        if d.lookup(args[0])[0]:
            d.delete(args[0])
        return None
    if name == 'remove':
        if not d.lookup(args[0])[0]:
            raise PyRaise(ctx.mk_exc(KeyError, (args[0],)))
        d.delete(args[0])
        return None
    if name == '__contains__':
        return d.lookup(args[0])[0]
    if name == '__len__':
        return d.length()
    if name == 'copy':
        c = d.copy_of()
        c.is_set = True
        return c
    if name == 'update':
        for a in args:
            consume(I, a, lambda v: d.set(force(v), True), ('set', 'x'))
        return None
    if name == 'clear':
        d.note()
        d.ops.append(('clear',))
        return None
    if name in ('union', 'difference', 'intersection') and len(args) == 1:
        c = d.copy_of()
        c.is_set = True
        other = args[0]
        if name == 'union':
            consume(I, other, lambda v: c.set(force(v), True), ('set', 'x'))
            return c
        return set_op(I, d, mk_set(I, other), (lambda x: not x) if name == 'difference' else (lambda x: x))
    if name in ('issubset', 'issuperset'):
        raise Unsupported('set method ' + name)
    raise Unsupported('set method ' + name)


def list_method(I, l, name, args, kw):
    ctx = C()
    if name == 'append':
        l.append(args[0])
        return None
    if name == 'extend':
        l.setparts(l.parts + parts_of(I, args[0]))
        return None
    if name == 'insert' and is_intish(args[0]):
        if ctx.must(int_term(args[0]) >= int_term(l.length())):
            l.append(args[1])
            return None
        if not isinstance(args[0], int):
            raise Unsupported('insert into a list at an unknown place')
        if args[0] == 0:
            l.setparts([args[1]] + l.parts)
            return None
        if l.concrete():
            ps = list(l.parts)
            ps.insert(args[0], args[1])
            l.setparts(ps)
            return None
    if name == 'pop':
        i = args[0] if args else -1
        if not truth(l):
            ctx.raise_py(IndexError, 'pop from empty list')
        if isinstance(i, int):
            if l.concrete():
                i = norm_index(i, len(l.parts))
                v = l.parts[i]
                l.setparts(l.parts[:i] + l.parts[i + 1:])
                return v
            if i in (0, -1):
                ps = list(l.parts)
                while True:
                    p = ps[0] if i == 0 else ps[-1]
                    if not isinstance(p, Seg):
                        ps.pop(i)
                        l.setparts(ps)
                        return p
                    if ctx.branch(int_term(p.count) >= 1):
                        v = p.take(i == 0)
                        ps = core.expand(ps)
                        ps.pop(i)
                        l.setparts(ps)
                        return v
                    ps.pop(i)
                    if not ps:
                        raise core.PathDone()
    if name in ('index', 'count', 'remove') and len(args) != 1:
        raise Unsupported('list method %s with a range' % name)
    if name == 'remove' and l.concrete():
        for k, x in enumerate(l.parts):
            if truth(eq(x, args[0])):
                l.setparts(l.parts[:k] + l.parts[k + 1:])
                return None
        ctx.raise_py(ValueError, 'list.remove(x): x not in list')
    if name == 'index' and l.concrete():
        for k, x in enumerate(l.parts):
            if truth(eq(x, args[0])):
                return k
        ctx.raise_py(ValueError, 'not in list')
    if name == 'count' and l.concrete():
        n = 0
        for x in l.parts:
            if truth(eq(x, args[0])):
                n += 1
        return n
    if name in ('copy', '__copy__'):
        return VList(l.parts)
    if name == 'clear':
        l.setparts([])
        return None
    if name == 'reverse':
        l.setparts(turned(l.parts))
        return None
    if name == 'sort':
        l.setparts(m_sorted(I, l, **kw).parts)
        return None
    if name == '__len__':
        return l.length()
    if name == '__contains__':
        return contains(I, l, args[0])
    if name == '__getitem__':
        return getitem(l, args[0])
    if name == '__iter__':
        return m_iter(I, l)
    if name == '__eq__':
        return eq(l, args[0])
    raise Unsupported('list method ' + name)


def bytearray_method(I, o, name, args, kw):
    if name == 'extend':
        a = args[0]
        if not isinstance(a, (bytes, SBytes, VByteArray)):
            a = m_bytes(I, a)
        o.setb(mk_bytes([_b(o), _b(a)]))
        return None
    if name == 'append':
        raise Unsupported('bytearray.append')
    if name == 'clear':
        o.setb(b'')
        return None
    if name == 'copy':
        return VByteArray(o.b)
    return bytes_method(I, o.b, name, args, kw)


def bytes_method(I, o, name, args, kw):
    if name == 'decode':
        return decode(I, o, args[0] if args else kw.get('encoding', 'utf-8'), args[1] if len(args) > 1 else kw.get('errors', 'strict'))
    if name == 'join':
        a = args[0]
        if isinstance(a, CharSeq):
            if o == b'':
                return a.data
            raise Unsupported('join')
        items = items_list(I, a)
        out = []
        for k, x in enumerate(items):
            x = force(x)
            if not isinstance(x, (bytes, SBytes, VByteArray)):
                C().raise_py(TypeError, 'sequence item: expected a bytes-like object')
            if k:
                out.append(o)
            out.append(_b(x))
        return mk_bytes(out)
    if name == '__len__':
        return blength(o)
    if isinstance(o, bytes) and all(concrete(a) for a in args):
        try:
            return C().wrap(getattr(o, name)(*args, **kw))
        except Exception as e:
            raise PyRaise(e)
    raise Unsupported('bytes method ' + name)


def encode(I, s, enc, errors='strict'):
    ctx = C()
    if errors != 'strict':
        if concrete(s) and concrete(enc) and concrete(errors):
            return s.encode(enc, errors)
        raise Unsupported('encode with error handler')
    if not isinstance(enc, str) or enc.lower().replace('_', '-') not in ('utf-8', 'utf8'):
        if isinstance(s, str) and isinstance(enc, str):
            try:
                return s.encode(enc)
            except Exception as e:
                raise PyRaise(e)
        raise Unsupported('encoding')
    if isinstance(s, str):
        try:
            return s.encode('utf-8')
        except Exception as e:
            raise PyRaise(e)
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out.append(p.encode('utf-8'))
            continue
        if not ('hexof' in p.meta or 'decof' in p.meta or 'quoteof' in p.meta or 'ascii' in p.meta):
            if not ctx.branch(core.encodable(p.t)):
                raise PyRaise(ctx.mk_exc(UnicodeEncodeError, ('utf-8', 'surrogates not allowed')))
        n = core.ublen(p.t)
        if ctx.memo_once(('ublen', n.get_id()), n):
            ctx.know_len(p)
            ctx.add(n >= slen(p.t), n <= 4 * slen(p.t))
        out.append(BPart('utf8', SStr((p,)), SInt(n)))
    return mk_bytes(out)


def decode(I, b, enc='utf-8', errors='strict'):
    ctx = C()
    b = _b(force(b))
    if not isinstance(b, (bytes, SBytes)):
        ctx.raise_py(TypeError, 'decoding to str: need a bytes-like object')
    if isinstance(b, bytes):
        try:
            return b.decode(enc, errors)
        except Exception as e:
            raise PyRaise(e)
    if enc.lower() not in ('utf-8', 'utf8'):
        raise Unsupported('decoding')
    ps = bparts(b)
    if all(isinstance(p, bytes) or p.kind == 'utf8' for p in ps):
        out = []
        for p in ps:
            if isinstance(p, bytes):
                try:
                    out.append(p.decode('utf-8'))
                except UnicodeDecodeError:
                    raise Unsupported('split utf-8 literal')
            else:
                out.append(p.a)
        return mk_str(out)
    if len(ps) == 1 and ps[0].kind == 'raw':
        ok = z3.Function('utf8ok', core.BytesS, z3.BoolSort())
        st = z3.Function('utf8dec', core.BytesS, core.StrS)
        if not ctx.branch(ok(ps[0].a)):
            if errors in ('replace', 'ignore', 'backslashreplace'):
                return SStr((Atom(z3.Function('utf8dec ' + errors, core.BytesS, core.StrS)(ps[0].a)),))
            if errors != 'strict':
                raise Unsupported('decode with error handler')
            raise PyRaise(ctx.mk_exc(UnicodeDecodeError, ('utf-8', 'invalid start byte')))
        return SStr((Atom(st(ps[0].a)),))
    raise Unsupported('decode of structured bytes')


def single_atom(s):
    ps = sparts(s)
    return ps[0] if len(ps) == 1 and isinstance(ps[0], Atom) else None


def str_split(I, s, sep, maxsplit=-1):
    ctx = C()
    if sep is None:
        if isinstance(s, str):
            return VList(s.split(None, maxsplit))
        raise Unsupported('split on whitespace')
    if not is_str(sep):
        ctx.raise_py(TypeError, 'must be str or None')
    if isinstance(s, str) and isinstance(sep, str) and isinstance(maxsplit, int):
        try:
            return VList(s.split(sep, maxsplit))
        except Exception as e:
            raise PyRaise(e)
    if not isinstance(sep, str) or not isinstance(maxsplit, int):
        raise Unsupported('split with symbolic separator')
    if sep == '':
        ctx.raise_py(ValueError, 'empty separator')
    ps = sparts(s)
    if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].meta.get('joinof', ('',))[0] == sep and maxsplit < 0:
        return VList(ps[0].meta['joinof'][1])
    if all(isinstance(p, str) or p.excludes(sep[0]) and all(p.excludes(c) for c in sep) for p in ps):
        out = [[]]
        n = 0
        for p in ps:
            if isinstance(p, Atom):
                out[-1].append(p)
                continue
            cs = p.split(sep, maxsplit - n if maxsplit >= 0 else -1)
            out[-1].append(cs[0])
            for c in cs[1:]:
                out.append([c])
                n += 1
        return VList([mk_str(x) for x in out])
    # peel literal separators off the front: atoms before it must exclude the separator
    t = sterm(s)
    L = core.lit(sep)
    n = core.snparts(t, L)
    a1 = single_atom(s)
    if ctx.memo_once(('snparts', n.get_id()), n):
        ctx.add(n >= 1)
        if len(sep) == 1:
            ctx.add(n >= 1 + sum(p.count(sep) for p in ps if isinstance(p, str)))
        ctx.add((n >= 2) == core.scontains(t, L))
        p0 = core.spart(t, L, z3.IntVal(0))
        ctx.add(z3.Implies(n == 1, p0 == t))
    no = {sep} if len(sep) == 1 else set()
    low = a1 is not None and a1.meta.get('lower')
    if a1 is not None and 'no' in a1.meta:
        no |= set(a1.meta['no'])

    def elem(i):
        pt = core.spart(t, L, int_term(i))
        meta = {'no': frozenset(no)}
        if low:
            meta['lower'] = True
        meta['partof'] = (s, sep, i)
        if ctx.memo_once(('spart', pt.get_id()), pt):
            ctx.know_len(Atom(pt, meta))
            if len(sep) == 1:
                ctx.add(z3.Not(core.scontains(pt, L)))
            if low:
                ctx.add(core.slower(pt) == pt)
        return SStr((Atom(pt, meta),))
    if maxsplit >= 0:
        if maxsplit == 1:
            h = elem(0)

            def el(i):
                if isinstance(i, int) and i == 0:
                    return h
                if isinstance(i, int) and i == 1:
                    return split_tail(s, sep, t, L, n)
                raise Unsupported('split(maxsplit)')
            return LazySeq(fold_int(z3.If(n >= 2, z3.IntVal(2), z3.IntVal(1))), el, (sep, maxsplit))
        raise Unsupported('split with maxsplit')
    return LazySeq(SInt(n), elem, (sep, maxsplit))


def split_tail(s, sep, t, L, n):
    ctx = C()
    f = z3.Function('stail', core.StrS, core.StrS, core.StrS)
    tt = f(t, L)
    if ctx.memo_once(('stail', tt.get_id()), tt):
        n2 = core.snparts(tt, L)
        ctx.add(n2 >= 1, z3.Implies(n >= 2, n2 == n - 1), (n2 >= 2) == core.scontains(tt, L))
        for k in range(3):
            ctx.add(z3.Implies(n > k + 1, core.spart(tt, L, z3.IntVal(k)) == core.spart(t, L, z3.IntVal(k + 1))))
        ctx.add(z3.Implies(n2 == 1, core.spart(tt, L, z3.IntVal(0)) == tt))
    return SStr((Atom(tt, {}),))


WHITESPACE = ''.join(c for c in map(chr, range(0x3100)) if c.isspace())


def str_strip(I, name, s, chars):
    if isinstance(s, str) and (chars is None or isinstance(chars, str)):
        return getattr(s, name)(chars)
    cs = WHITESPACE if chars is None else chars
    if isinstance(cs, str):
        ps = list(sparts(s))
        ok = True
        for e in [0] * (name in ('strip', 'lstrip')) + [-1] * (name in ('strip', 'rstrip')):
            while ps:
                p = ps[e]
                if isinstance(p, str):
                    q = p.lstrip(cs) if e == 0 else p.rstrip(cs)
                    if q:
                        ps[e] = q
                        break
                    ps.pop(e)
                    continue
                # pieces that may be empty but have nothing to strip, up to one that keeps its end
                for p in (ps if e == 0 else ps[::-1]):
                    if isinstance(p, str):
                        ok = ok and p[e] not in cs
                        break
                    ok = ok and all(p.excludes(c) for c in cs)
                    if not ok or p.meta.get('minlen', 0) >= 1:
                        break
                break
        if ok:
            return mk_str(ps)
    r = C().uf_str(name + ('' if chars is None else repr(chars)), s)
    a = r.parts[0]
    one = single_atom(s)
    if one is not None:
        for k in ('no', 'lower', 'only'):
            if k in one.meta:
                a.meta[k] = one.meta[k]
    ctx = C()
    ctx.know_len(a)
    ctx.add(slen(a.t) <= int_term(str_len(s)))
    return r


def str_replace(I, s, old, new, *rest):
    ctx = C()
    if isinstance(s, str) and isinstance(old, str) and isinstance(new, str):
        return s.replace(old, new, *rest)
    if isinstance(old, str) and isinstance(new, str) and old != '' and not rest:
        out = []
        for p in sparts(s):
            if isinstance(p, str):
                if len(old) != 1:
                    raise Unsupported('replace of a long string in a rope')
                out.append(p.replace(old, new))
            elif all(p.excludes(c) for c in old[:1]):
                out.append(p)
            elif len(old) != 1 and len(sparts(s)) > 1:
                raise Unsupported('replace of a long string in a rope')
            else:
                r = ctx.uf_str('repl_%s_%s' % (old, new), SStr((p,)))
                a = r.parts[0]
                meta = {}
                if p.meta.get('lower') and new.lower() == new:
                    meta['lower'] = True
                no = set(p.meta.get('no', ()))
                no -= set(new)
                if len(old) == 1 and old not in new:
                    no.add(old)
                if no:
                    meta['no'] = frozenset(no)
                if 'minlen' in p.meta and len(new) >= 1:
                    meta['minlen'] = 1
                a.meta.update(meta)
                if ctx.memo_once(('repl', a.t.get_id()), a.t):
                    ctx.know_len(a)
                    ctx.know_len(p)
                    if len(old) == len(new):
                        ctx.add(slen(a.t) == slen(p.t))
                    if meta.get('lower'):
                        ctx.add(core.slower(a.t) == a.t)
                    ctx.add(z3.Implies(z3.Not(core.scontains(p.t, core.lit(old))), a.t == p.t))
                    for lt, l in list(ctx.lits.items()):
                        ctx.add(z3.Implies(p.t == l, a.t == ctx.lit(lt.replace(old, new))))
                out.append(a)
        return mk_str(out)
    raise Unsupported('replace')


def str_join(I, sep, it):
    ctx = C()
    ps = parts_of(I, it) if not isinstance(it, CharSeq) else None
    if ps is None:
        raise Unsupported('join')
    if any(isinstance(p, Seg) for p in ps):
        for p in ps:
            if isinstance(p, Seg):
                if ctx.may(int_term(p.count) >= 1):
                    v = force(p.gen())
                    if not is_str(v):
                        ctx.raise_py(TypeError, 'sequence item: expected str instance')
        return ctx.new_str('joined')
    out = []
    for k, x in enumerate(ps):
        x = force(x)
        if not is_str(x):
            ctx.raise_py(TypeError, 'sequence item %d: expected str instance, %s found' % (k, pytype(x).__name__))
        if k:
            out.append(sep)
        out.append(x)
    return mk_str(out)


def str_endswith(s, p):
    if isinstance(p, tuple):
        return b_or(*[str_endswith(s, q) for q in p])
    if isinstance(s, str) and isinstance(p, str):
        return s.endswith(p)
    a, b = list(sparts(s)), list(sparts(p))
    while a and b:
        x, y = a[-1], b[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return False
            for l, r in ((a, x[:-n]), (b, y[:-n])):
                if r:
                    l[-1] = r
                else:
                    l.pop()
            continue
        if isinstance(x, Atom) and isinstance(y, Atom) and x.t.eq(y.t):
            a.pop()
            b.pop()
            continue
        break
    if not b:
        return True
    if not a:
        return core.str_eq('', mk_str(b))
    return SBool(core.sends(sterm(mk_str(a)), sterm(mk_str(b))))


def str_partition(I, name, s, sep):
    ctx = C()
    if isinstance(s, str) and isinstance(sep, str):
        return getattr(s, name)(sep)
    if not isinstance(sep, str):
        raise Unsupported('partition')
    ps = list(sparts(s))
    if all(isinstance(p, str) or all(p.excludes(c) for c in sep) for p in ps):
        cells = str_split(I, s, sep).parts
        if len(cells) == 1:
            return (s, '', '') if name == 'partition' else ('', '', s)
        if name == 'partition':
            return (cells[0], sep, str_join(I, sep, VList(cells[1:])))
        return (str_join(I, sep, VList(cells[:-1])), sep, cells[-1])
    if name == 'partition':
        q = str_split(I, s, sep)
        t, L = sterm(s), core.lit(sep)
        if truth(compare('>=', q.n, 2)):
            return (q.elem(0), sep, split_tail(s, sep, t, L, core.snparts(t, L)))
        return (s, '', '')
    raise Unsupported('rpartition')


def str_method(I, s, name, args, kw):
    ctx = C()
    if isinstance(s, str) and all(concrete(a) for a in args) and all(concrete(v) for v in kw.values()) and name not in ('join', 'format', 'split'):
        try:
            return ctx.wrap(getattr(s, name)(*args, **kw))
        except Exception as e:
            raise PyRaise(e)
    if name == 'lower':
        return str_lower(s)
    if name == 'format':
        return str_format(I, s, args, kw)
    if name == 'join':
        return str_join(I, s, args[0])
    if name == 'split':
        sep = args[0] if args else kw.get('sep')
        mx = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
        return str_split(I, s, sep, mx)
    if name in ('strip', 'lstrip', 'rstrip'):
        return str_strip(I, name, s, args[0] if args else None)
    if name == 'replace':
        return str_replace(I, s, *args)
    if name in ('startswith', 'endswith'):
        if len(args) > 1:
            raise Unsupported('startswith with a range')
        p = args[0]
        if not (is_str(p) or isinstance(p, tuple)):
            ctx.raise_py(TypeError, 'startswith first arg must be str')
        return str_startswith(s, p) if name == 'startswith' else str_endswith(s, p)
    if name in ('partition', 'rpartition'):
        return str_partition(I, name, s, args[0])
    if name == 'zfill':
        return core.zfill(s, args[0])
    if name == 'rjust' and len(args) == 2 and args[1] == '0' and hex_parts(s) is not None and len(sparts(s)) == 1:
        return core.zfill(s, args[0])
    if name == 'encode':
        return encode(I, s, args[0] if args else kw.get('encoding', 'utf-8'), args[1] if len(args) > 1 else kw.get('errors', 'strict'))
    if name == 'count' and len(args) == 1 and isinstance(args[0], str):
        q = str_split(I, s, args[0])
        n = q.length() if isinstance(q, VList) else q.n
        return binop('-', n, 1)
    if name in ('find', 'index') and len(args) == 1:
        if truth(str_contains(s, args[0])):
            r = ctx.fresh('find', z3.IntSort())
            ctx.add(r >= 0, r + int_term(str_len(args[0])) <= int_term(str_len(s)))
            return SInt(r)
        if name == 'index':
            ctx.raise_py(ValueError, 'substring not found')
        return -1
    if name == '__len__':
        return str_len(s)
    if name == '__contains__':
        return str_contains(s, args[0])
    if name == '__eq__':
        return eq(s, args[0])
    if name == '__mod__':
        return percent(I, s, args[0])
    if name == '__add__':
        return binop('+', s, args[0])
    if name == '__str__':
        return s
    if name == 'removeprefix':
        if truth(str_startswith(s, args[0])):
            return str_sub(s, str_len(args[0]), None)
        return s
    if name in ('upper', 'title', 'capitalize', 'swapcase', 'casefold'):
        return ctx.uf_str(name, s)
    if name.startswith('is') and not args:
        return ctx.uf_bool(name, s)
    raise Unsupported('str method ' + name)


# ------------------------------------------------------------------ struct
class CharSeq(object):
    """result of unpacking 'c' * n: the single bytes of data"""
    def __init__(self, data, n):
        self.data, self.n = data, n


SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'c': 1, '?': 1, 'f': 4, 'd': 8}


def parse_fmt(f):
    ctx = C()
    if not isinstance(f, str):
        raise Unsupported('symbolic struct format')
    order = '@'
    if f and f[0] in '<>!=@':
        order, f = f[0], f[1:]
    if order not in '>!':
        raise Unsupported('struct byte order')
    out = []
    i = 0
    while i < len(f):
        j = i
        while j < len(f) and f[j].isdigit():
            j += 1
        n = int(f[i:j]) if j > i else None
        c = f[j]
        i = j + 1
        if c == 's':
            out.append(('s', n if n is not None else 1))
            continue
        if c not in SIZES or c in 'fd':
            raise Unsupported('struct format ' + c)
        out.extend([(c, SIZES[c])] * (1 if n is None else n))
    return out


@model(struct.calcsize)
def m_calcsize(I, f):
    if isinstance(f, str):
        return struct.calcsize(f)
    raise Unsupported('calcsize')


@model(struct.pack)
def m_pack(I, f, *vals):
    ctx = C()
    vals = [force(v) for v in vals]
    if isinstance(f, str) and all(concrete(v) for v in vals):
        try:
            return struct.pack(f, *vals)
        except Exception as e:
            raise PyRaise(e)
    items = parse_fmt(f)
    if len(items) != len(vals):
        ctx.raise_py(struct.error, 'pack expected %d items' % len(items))
    out = []
    for (c, w), v in zip(items, vals):
        if c == 's':
            if not isinstance(v, (bytes, SBytes, VByteArray)):
                ctx.raise_py(struct.error, 'argument for s must be bytes')
            raise Unsupported('struct s')
        if c == 'c':
            raise Unsupported('struct c')
        if not is_intish(v):
            ctx.raise_py(struct.error, 'required argument is not an integer')
        n = int_term(v)
        lo, hi = (0, 1 << (8 * w)) if c.isupper() else (-(1 << (8 * w - 1)), 1 << (8 * w - 1))
        if not ctx.branch(z3.And(n >= lo, n < hi)):
            ctx.raise_py(struct.error, 'argument out of range')
        if not is_sym(v):
            out.append(struct.pack('>' + c, v))
            continue
        if not c.isupper():
            n = z3.If(n < 0, n + (1 << (8 * w)), n)
        out.append(int_bytes(n, w))
    return mk_bytes(out)


def take_int(I, b, w, signed):
    """(value, rest) of the leading w bytes"""
    ctx = C()
    ps = list(bparts(b))
    while ps and core.no_items(ps[0]):
        ps.pop(0)
    if ps and isinstance(ps[0], bytes) and len(ps[0]) >= w:
        v = int.from_bytes(ps[0][:w], 'big', signed=signed)
        return v, mk_bytes([ps[0][w:]] + ps[1:])
    if ps and not isinstance(ps[0], bytes) and ps[0].kind == 'int' and ps[0].n == w:
        n = ps[0].a
        if signed:
            n = z3.If(n >= (1 << (8 * w - 1)), n - (1 << (8 * w)), n)
        return fold_int(n), mk_bytes(ps[1:])
    raise Unsupported('unpacking bytes that were not packed as integers')


@model(struct.unpack)
def m_unpack(I, f, data):
    ctx = C()
    f, data = force(f), _b(force(data))
    if not isinstance(data, (bytes, SBytes)):
        ctx.raise_py(TypeError, 'a bytes-like object is required')
    if isinstance(f, str) and isinstance(data, bytes):
        try:
            return struct.unpack(f, data)
        except Exception as e:
            raise PyRaise(e)
    if isinstance(f, SStr):
        ps = list(f.parts)
        if len(ps) == 2 and ps[0] in ('>', '!') and isinstance(ps[1], Atom) and ps[1].meta.get('rep', (0,))[0] == 'c':
            n = int_term(ps[1].meta['rep'][1])
            n = z3.If(n > 0, n, z3.IntVal(0))
            if truth(fold_bool(int_term(blength(data)) == n)):
                return CharSeq(data, blength(data))
            ctx.raise_py(struct.error, 'unpack requires a buffer of different size')
        if len(ps) == 3 and ps[0] in ('>', '!') and ps[2] == 's' and 'decof' in ps[1].meta:
            n = ps[1].meta['decof']
            if truth(fold_bool(int_term(blength(data)) == n)):
                return (data,)
            ctx.raise_py(struct.error, 'unpack requires a buffer of different size')
        raise Unsupported('symbolic struct format')
    items = parse_fmt(f)
    total = sum(w for _, w in items)
    if not truth(eq(blength(data), total)):
        ctx.raise_py(struct.error, 'unpack requires a buffer of %d bytes' % total)
    out = []
    for c, w in items:
        if c in 'sc':
            r = bytes_split_at(data, w)
            if r is None:
                raise Unsupported('unpack')
            out.append(r[0])
            data = r[1]
            continue
        v, data = take_int(I, data, w, not c.isupper())
        out.append(v)
    return tuple(out)


@model(struct.unpack_from)
def m_unpack_from(I, f, data, offset=0):
    b = _b(force(data))
    r = bytes_split_at(b, offset)
    if r is None:
        raise Unsupported('unpack_from')
    n = struct.calcsize(f)
    q = bytes_split_at(r[1], n)
    if not truth(compare('>=', blength(r[1]), n)):
        C().raise_py(struct.error, 'unpack_from requires a larger buffer')
    if q is None:
        raise Unsupported('unpack_from')
    return m_unpack(I, f, q[0])


@model(int.from_bytes)
def m_from_bytes(I, b, byteorder='big', signed=False):
    b = _b(force(b))
    if isinstance(b, bytes):
        return int.from_bytes(b, byteorder, signed=signed)
    n = blength(b)
    if isinstance(n, int) and byteorder == 'big':
        ps = bparts(b)
        if len(ps) == 1:
            return take_int(I, b, n, signed)[0]
        v = z3.IntVal(0)
        if not signed:
            rest = b
            while rest != b'':
                p = bparts(rest)[0]
                w = len(p) if isinstance(p, bytes) else p.n
                x, rest = take_int(I, rest, w, False)
                v = v * (1 << (8 * w)) + int_term(x)
            return fold_int(v)
    raise Unsupported('int.from_bytes')


# ------------------------------------------------------------------ urllib
@model(urllib.parse.quote)
def m_quote(I, s, safe='/', encoding=None, errors=None):
    ctx = C()
    s = force(s)
    if concrete(s):
        try:
            return urllib.parse.quote(s, safe=safe, encoding=encoding, errors=errors)
        except Exception as e:
            raise PyRaise(e)
    if not isinstance(s, SStr):
        if isinstance(s, SBytes):
            raise Unsupported('quote of bytes')
        ctx.raise_py(TypeError, 'quote_from_bytes() expected bytes')
    if not isinstance(safe, str) or encoding is not None or errors is not None:
        raise Unsupported('quote variant')
    fn = core.squote if safe == '/' else z3.Function('squote ' + ''.join(sorted(set(safe))), core.StrS, core.StrS)
    out = []
    for p in s.parts:
        if isinstance(p, str):
            try:
                out.append(urllib.parse.quote(p, safe=safe))
            except UnicodeEncodeError as e:
                raise PyRaise(e)
        else:
            if not ('hexof' in p.meta or 'decof' in p.meta or 'ascii' in p.meta):
                if not ctx.branch(core.encodable(p.t)):
                    raise PyRaise(ctx.mk_exc(UnicodeEncodeError, ('utf-8', 'surrogates not allowed')))
            t = fn(p.t)
            undone = '%' not in safe      # unquote() gives the text back
            if ctx.memo_once(('quote', t.get_id()), t):
                if undone:
                    ctx.add(core.sunquote(t) == p.t)
                ctx.know_len(Atom(t, {}))
                ctx.add((t == core.lit('')) == (p.t == core.lit('')))
            out.append(Atom(t, {'quoteof': SStr((p,)), 'safe': ''.join(sorted(set(safe)))} if undone else {'ascii': True}))
    return mk_str(out)


@model(tornado.httputil.url_concat)
def m_url_concat(I, url, args):
    """url with these arguments in its query; what they are is remembered"""
    args = force(args)
    if args is None:
        return url
    if isinstance(args, VDict):
        args = I.call(list, [I.call(I.getattr(args, 'items'), [], {})], {})
    elif isinstance(args, tuple):
        args = VList(list(args))
    if not isinstance(args, VList):
        C().raise_py(TypeError, "'args' parameter should be dict, list or tuple")
    v = C().new_str('url')
    v.parts[0].meta['urlof'] = (url, VList(list(args.parts)))
    return v


@model(urllib.parse.quote_plus)
def m_quote_plus(I, s):
    return C().uf_str('quote_plus', s)


def _whole_escapes(p):
    """every % starts an escape within p and the escapes decode to whole characters: decoding p on its own is right"""
    try:
        return all(re.match('%[0-9a-fA-F]{2}', p[i:]) for i, c in enumerate(p) if c == '%') and \
            bool(urllib.parse.unquote_to_bytes(p).decode('utf-8') is not None)
    except UnicodeDecodeError:
        return False


@model(urllib.parse.unquote)
def m_unquote(I, s, encoding='utf-8', errors='replace'):
    ctx = C()
    s = force(s)
    if encoding != 'utf-8' or errors != 'replace':
        raise Unsupported('unquote variant')
    if concrete(s):
        try:
            return urllib.parse.unquote(s)
        except Exception as e:
            raise PyRaise(e)
    if isinstance(s, (SBytes,)):
        return decode(I, s, 'utf-8')
    if not isinstance(s, SStr):
        # unquote() looks for '%' in its argument: TypeError for non-iterables
        if isinstance(s, (VList, LazySeq, VDict)):
            if truth(contains(I, s, '%')):
                ctx.raise_py(AttributeError, 'split')
            return s
        ctx.raise_py(TypeError, "argument of type '%s' is not iterable" % pytype(s).__name__)
    out = []
    for p in s.parts:
        if isinstance(p, str):
            if '%' in p and len(s.parts) > 1 and not _whole_escapes(p):
                return ctx.uf_str('unquote', s)
            out.append(urllib.parse.unquote(p))
        elif 'quoteof' in p.meta:
            out.append(p.meta['quoteof'])
        elif 'hexof' in p.meta or 'decof' in p.meta or p.excludes('%'):
            out.append(p)
        elif len(s.parts) == 1:
            t = core.sunquote(p.t)
            if ctx.memo_once(('unquote', t.get_id()), t):
                ctx.know_len(Atom(t, {}))
                ctx.add((t == core.lit('')) == (p.t == core.lit('')))
                ctx.add(z3.Implies(z3.Not(core.scontains(p.t, core.lit('%'))), t == p.t))
            out.append(Atom(t, {'unquoteof': s}))
        else:
            return ctx.uf_str('unquote', s)
    return mk_str(out)


# ------------------------------------------------------------------ time, random, os
@model(time.time)
def m_time(I):
    ctx = C()
    ck = ctx.clock
    if ck is None:
        ck = ctx.clock = Clock()
    return ck.read()


MODELS[time.monotonic] = m_time
MODELS[time.perf_counter] = m_time


class Clock(object):
    """time.time(): non-decreasing readings unless the harness fixes them"""
    def __init__(self):
        self.fixed = None
        self.last = None
        self.readings = []

    def read(self):
        ctx = C()
        if self.fixed is not None:
            v = self.fixed
        else:
            t = ctx.fresh('now', z3.RealSort())
            ctx.add(t > 0 if self.last is None else t >= self.last)
            self.last = t
            v = SReal(t)
        self.readings.append(v)
        return v


@model(time.sleep)
def m_sleep(I, s):
    return None


class RandomM(ModelObj):
    pycls = random.Random

    def getrandbits(self, n):
        ctx = C()
        if not isinstance(n, int):
            raise Unsupported('getrandbits of a symbolic width')
        t = ctx.fresh('rnd', z3.IntSort())
        ctx.add(t >= 0, t < (1 << n))
        ctx.draws.append((SInt(t), n))
        return SInt(t)

    def random(self):
        ctx = C()
        t = ctx.fresh('rnd', z3.RealSort())
        ctx.add(t >= 0, t < 1)
        return SReal(t)

    def randint(self, a, b):
        ctx = C()
        t = ctx.fresh('rndint', z3.IntSort())
        ctx.add(t >= int_term(a), t <= int_term(b))
        if is_intish(a) and a == 0 and isinstance(b, int) and (b & (b + 1)) == 0:
            ctx.draws.append((SInt(t), b.bit_length()))
        return SInt(t)

    def randrange(self, a, b=None):
        if b is None:
            a, b = 0, a
        return self.randint(a, binop('-', b, 1))

    def uniform(self, a, b):
        return binop('+', a, binop('*', self.random(), binop('-', b, a)))

    def seed(self, *a):
        return None


MODELS[random.Random] = lambda I, *a: RandomM()
MODELS[random.SystemRandom] = lambda I, *a: RandomM()
for _n in ('getrandbits', 'random', 'randint', 'randrange', 'uniform', 'seed'):
    def _f(I, *a, _n=_n):
        return getattr(RandomM(), _n)(*a)
    MODELS[getattr(random, _n)] = _f


@model(os.getpid)
def m_getpid(I):
    return 4242


@model(os.getenv)
def m_getenv(I, k, default=None):
    return dict_method(I, environ(), 'get', [k, default], {})


def environ():
    ctx = C()
    if ('os', 'environ') not in ctx.modvars:
        ctx.modvars[('os', 'environ')] = VDict()
    return ctx.modvars[('os', 'environ')]


MODELS[os.environ.get] = lambda I, k, d=None: m_getenv(I, k, d)
# the machine's name and address are fixed texts; no property depends on them
MODELS[socket.gethostname] = lambda I: 'host'
MODELS[socket.gethostbyname] = lambda I, name: '10.0.0.1'


@model(traceback.format_tb)
def m_format_tb(I, tb, limit=None):
    if force(limit) is not None:
        return VList([C().new_str('some frames')])
    return VList(tb_pieces(force(tb)))


def tb_pieces(tb):
    """the formatted frames of a traceback: some text in two pieces"""
    m = C().memo
    k = ('tb', id(tb))
    if k not in m:
        m[k] = (tb, [C().new_str('frames', minlen=1), C().new_str('last frame', minlen=1)])
    return list(m[k][1])


MODELS[traceback.format_exc] = lambda I, *a: C().new_str('exc')
MODELS[traceback.print_exc] = lambda I, *a, **k: None


import sys  # noqa: E402


@model(sys.exc_info)
def m_exc_info(I):
    if not I.handling:
        return (None, None, None)
    e = I.handling[-1]
    return (core.exc_class(e), e, Opaque('traceback', types.TracebackType))


# ------------------------------------------------------------------ json
@model(json.loads)
def m_loads(I, s, **kw):
    ctx = C()
    if kw:
        raise Unsupported('json.loads variant')
    s = force(s)
    h = ctx.hooks.get('json.loads')
    if h is not None:
        return h(I, s)
    if isinstance(s, (str, bytes)):
        try:
            return ctx.wrap(json.loads(s))
        except Exception as e:
            raise PyRaise(e)
    raise Unsupported('json.loads of a symbolic text')


@model(json.dumps)
def m_dumps(I, v, **kw):
    if concrete(v):
        return json.dumps(v, **kw)
    return opaque_text(I, v)


# ------------------------------------------------------------------ locks
class VLock(ModelObj):
    pycls = type(threading.Lock())
    loop_ok = True
    is_lock = True

    def __init__(self):
        object.__setattr__(self, 'held', False)
        object.__setattr__(self, 'owner', None)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()
        return False

    def acquire(self, blocking=True, timeout=-1):
        ctx = C()
        blocking, timeout = force(blocking), force(timeout)
        if blocking is not True or timeout != -1:
            if not truth(blocking) and not truth(eq(timeout, -1)):
                ctx.raise_py(ValueError, "can't specify a timeout for a non-blocking call")
            if self.held or ctx.choose(2, 'lock held by another thread'):
                return False
        if self.held:
            raise Deadlock('lock acquired twice by the same thread')
        h = ctx.hooks.get('acquire')
        self.held = True
        if h:
            h(self)
        return True

    def release(self):
        ctx = C()
        if not self.held:
            ctx.raise_py(RuntimeError, 'release unlocked lock')
        h = ctx.hooks.get('release')
        if h:
            h(self)
        self.held = False

    def locked(self):
        return self.held

    @staticmethod
    def arbitrary(ctx):
        return VLock()


class VRLock(VLock):
    """held: how often; only the outermost acquire and release concern other threads"""
    pycls = type(threading.RLock())

    def __init__(self):
        object.__setattr__(self, 'held', 0)
        object.__setattr__(self, 'owner', None)

    def acquire(self, blocking=True, timeout=-1):
        n = self.held
        if not (truth(compare('>', n, 0)) if is_sym(n) else n):
            if not VLock.acquire(self, blocking, timeout):
                return False
            n = 0
        self.held = binop('+', n, 1)
        return True

    def release(self):
        n = self.held
        if truth(eq(n, 1)):
            VLock.release(self)
            self.held = 0
        elif truth(eq(n, 0)):
            C().raise_py(RuntimeError, 'cannot release un-acquired lock')
        else:
            self.held = binop('-', n, 1)


class Deadlock(Exception):
    """the code would block forever"""


MODELS[threading.Lock] = lambda I: VLock()
MODELS[threading.RLock] = lambda I: VRLock()
MODELS[threading.current_thread] = lambda I: Opaque('thread')
MODELS[threading.get_ident] = lambda I: 1


class VLocal(ModelObj):
    """threading.local as seen by the verified thread"""


MODELS[threading.local] = lambda I: VLocal()

for _n in ('debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'):
    MODELS[getattr(logging.Logger, _n)] = lambda I, *a, **k: None
    MODELS[getattr(logging, _n)] = lambda I, *a, **k: None
MODELS[logging.Logger.isEnabledFor] = lambda I, *a: False
MODELS[logging.getLogger] = lambda I, *a: logging.getLogger(*[x for x in a if concrete(x)])


# ------------------------------------------------------------------ context managers and other library functions
class VSuppress(ModelObj):
    pycls = contextlib.suppress

    def __init__(self, *classes):
        object.__setattr__(self, 'classes', classes)

    def __enter__(self):
        return None

    def __exit__(self, cls, exc, tb):
        return cls is not None and issubclass(cls, tuple(force(c) for c in self.classes))


class VNull(ModelObj):
    pycls = contextlib.nullcontext

    def __init__(self, value=None):
        object.__setattr__(self, 'value', value)

    def __enter__(self):
        return self.value

    def __exit__(self, *a):
        return False


class VClosing(ModelObj):
    pycls = contextlib.closing

    def __init__(self, thing):
        object.__setattr__(self, 'thing', thing)

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        I = C().interp
        I.call(I.getattr(self.thing, 'close'), [])
        return False


MODELS[contextlib.suppress] = lambda I, *a: VSuppress(*a)
MODELS[contextlib.nullcontext] = lambda I, *a: VNull(*a)
MODELS[contextlib.closing] = lambda I, *a: VClosing(*a)
MODELS[contextlib.contextmanager] = lambda I, f: CtxFn(f)


@model(functools.reduce)
def m_reduce(I, fn, it, start=MISS):
    box = VList([] if start is MISS else [start])

    def body(v):
        if not truth(compare('>', box.length(), 0)):
            box.setparts([v])
        else:
            box.setparts([I.call(fn, [getitem(box, 0), v])])
    consume(I, it, body, ('reduce', 'x'))
    if not box.parts:
        C().raise_py(TypeError, 'reduce() of empty iterable with no initial value')
    return getitem(box, 0)


@model(itertools.chain)
def m_chain(I, *its):
    return chained(I, its)


@model(itertools.chain.from_iterable)
def m_chain_from(I, its):
    return chained(I, items_list(I, its))


def chained(I, its):
    out = []
    for it in its:
        out.extend(parts_of(I, it))
    return IterV(out)


@model(copy.copy)
def m_copy(I, o):
    o = force(o)
    if isinstance(o, VDict):
        d = o.copy_of()
        d.is_set = o.is_set
        return d
    if isinstance(o, VList):
        return o if o.is_tuple else VList(o.parts)
    if isinstance(o, LazySeq):
        return VList(parts_of(I, o))
    if isinstance(o, VByteArray):
        return VByteArray(o.b)
    if isinstance(o, VObj):
        if I.class_attr(o.cls, '__copy__') is not UNBOUND or I.class_attr(o.cls, '__reduce_ex__')[1] is not object or \
                I.class_attr(o.cls, '__reduce__')[1] is not object or I.class_attr(o.cls, '__getstate__')[1] is not object or \
                I.class_attr(o.cls, '__setstate__') is not UNBOUND or issubclass(o.cls, BaseException):
            raise Unsupported('copy of %s' % o.cls.__name__)
        return VObj(o.cls, dict(o.fields))
    if isinstance(o, (Sym, type(None), str, bytes, int, float, tuple, type, types.FunctionType, VFunc)):
        return o
    raise Unsupported('copy of %r' % (o,))


# ------------------------------------------------------------------ tornado
import tornado.concurrent  # noqa: E402
import tornado.gen  # noqa: E402
import tornado.ioloop  # noqa: E402
import tornado.queues  # noqa: E402

GEN_RETURN = tornado.gen.Return
COROUTINE_DECORATORS = (tornado.gen.coroutine,)


class CoroutineFn(object):
    def __init__(self, f):
        self.f = f


class VFuture(ModelObj):
    """a future: pending / result / exception, with callbacks run when it completes"""
    pycls = asyncio.Future
    loop_ok = False

    def __init__(self):
        d = self.__dict__
        d['state'] = 'pending'
        d['value'] = None
        d['callbacks'] = VList()

    def _finish(self, st, v):
        ctx = C()
        if self.state != 'pending':
            ctx.raise_py(asyncio.InvalidStateError, 'invalid state')
        self.state = st
        self.value = v
        cbs = list(self.callbacks.parts)
        self.callbacks.setparts([])
        for cb in cbs:
            self._run(cb)

    def _run(self, cb):
        ctx = C()
        try:
            ctx.interp.call(cb, [self])
        except PyRaise as e:
            # asyncio logs exceptions of callbacks
            ctx.events.append(('callback-exception', e.exc))

    def set_result(self, v):
        self._finish('result', v)

    def set_exception(self, e):
        ctx = C()
        e = force(e)
        if isinstance(e, type):
            e = ctx.interp.instantiate(e, [], {})
        self._finish('exception', e)

    def done(self):
        return self.state != 'pending'

    def cancelled(self):
        return False

    def exception(self):
        ctx = C()
        if self.state == 'pending':
            ctx.raise_py(asyncio.InvalidStateError, 'Exception is not set.')
        return self.value if self.state == 'exception' else None

    def result(self):
        ctx = C()
        if self.state == 'pending':
            ctx.raise_py(asyncio.InvalidStateError, 'Result is not set.')
        if self.state == 'exception':
            raise PyRaise(self.value)
        return self.value

    def add_done_callback(self, cb):
        if self.state == 'pending':
            self.callbacks.append(cb)
        else:
            self._run(cb)


MODELS[asyncio.Future] = lambda I, **k: VFuture()
MODELS[tornado.concurrent.Future] = MODELS[asyncio.Future]
MODELS[tornado.gen.Future] = MODELS[asyncio.Future]


@model(tornado.gen.maybe_future)
def m_maybe_future(I, x):
    x = force(x)
    if isinstance(x, VFuture):
        return x
    f = VFuture()
    f.set_result(x)
    return f


MODELS[tornado.gen.convert_yielded] = m_maybe_future


@model(tornado.gen.coroutine)
def m_coroutine(I, f):
    return CoroutineFn(f)


class VPeriodic(ModelObj):
    pycls = tornado.ioloop.PeriodicCallback

    def __init__(self, callback, callback_time, jitter=0):
        if truth(core.compare('<=', callback_time, 0)):
            C().raise_py(ValueError, 'Periodic callback must have a positive callback_time')
        self.callback = callback
        self.callback_time = callback_time
        self.running = False

    def start(self):
        self.running = True

    def stop(self):
        self.running = False

    def is_running(self):
        return self.running


MODELS[tornado.ioloop.PeriodicCallback] = lambda I, callback, callback_time, jitter=0: VPeriodic(callback, callback_time, jitter)


class VQueue(ModelObj):
    """a tornado queue as it was made; contracts replace it by their own"""
    pycls = tornado.queues.Queue

    def __init__(self, maxsize):
        object.__setattr__(self, 'maxsize', maxsize)


def m_bytesio(I, b=b''):
    from clients.memory_file import MemoryFile, MemoryReader
    b = force(b)
    if isinstance(b, VByteArray):
        b = b.b
    return I.call(MemoryFile, [], {}) if isinstance(b, bytes) and not b else I.call(MemoryReader, [b], {})


MODELS[io.BytesIO] = m_bytesio
MODELS[tornado.queues.Queue] = lambda I, maxsize=0: VQueue(maxsize)


def resolve_yield(I, v):
    """the value sent back into a coroutine that yields v"""
    ctx = C()
    v = force(v)
    h = ctx.hooks.get('yield')
    if h is not None:
        r = h(I, v)
        if r is not NotImplemented:
            return r
    if isinstance(v, VFuture):
        if v.state == 'pending':
            raise core.Suspend()
        return v.result()
    return v


# ------------------------------------------------------------------ everything else
PURE = {os.path.join, os.path.basename, os.path.dirname, struct.calcsize, struct.Struct}
STRUCT = {'pack': m_pack, 'unpack': m_unpack, 'unpack_from': m_unpack_from}


OPERATORS = {v: k for k, v in NATIVE.items()}
COMPARISONS = {operator.lt: '<', operator.le: '<=', operator.gt: '>', operator.ge: '>='}


def operator_call(I, fn, args):
    name = fn.__name__
    if fn in OPERATORS:
        return binop(OPERATORS[fn], *args)
    if fn in COMPARISONS:
        return core.compare(COMPARISONS[fn], *args)
    if fn is operator.eq:
        return eq(*args)
    if fn is operator.ne:
        return neg(eq(*args))
    if fn is operator.not_:
        return neg(m_bool(I, args[0]))
    if fn is operator.truth:
        return m_bool(I, args[0])
    if fn is operator.getitem:
        return getitem(*args)
    if fn is operator.setitem:
        return setitem(*args)
    if fn is operator.delitem:
        return delitem(*args)
    if fn is operator.contains:
        return contains(I, *args)
    if fn is operator.is_:
        return core.same(*args)
    if fn is operator.is_not:
        return neg(core.same(*args))
    if fn is operator.neg:
        return core.unop('-', args[0])
    if name.startswith('i') and getattr(operator, name[1:], getattr(operator, name[1:] + '_', None)) in OPERATORS:
        return inplace(OPERATORS[getattr(operator, name[1:], None) or getattr(operator, name[1:] + '_')], *args)
    return MISS


def call_unknown(I, fn, args, kw):
    ctx = C()
    args = [force(a) for a in args]
    # unbound methods of builtin types applied to symbolic values
    if isinstance(fn, (types.MethodDescriptorType, types.WrapperDescriptorType)) and args:
        o = args[0]
        if isinstance(o, (Sym, VDict, VList, VByteArray, LazySeq, str, bytes, tuple)):
            return call_method(I, o, fn.__name__, args[1:], kw)
        if isinstance(o, VObj):
            return obj_method(I, o, fn.__name__, args[1:], kw)
    if isinstance(fn, CoroutineFn):
        try:
            v = I.call_vfunc(fn.f, args, kw)
        except PyRaise as e:
            f = VFuture()
            f.set_exception(e.exc)
            return f
        except core.Suspend:
            return VFuture()
        f = VFuture()
        f.set_result(v)
        return f
    if isinstance(fn, types.FunctionType) and fn.__name__ in ('_replace', '_asdict') and args and isinstance(force(args[0]), VObj) and \
            getattr(force(args[0]).cls, fn.__name__, None) is fn:
        return obj_method(I, force(args[0]), fn.__name__, list(args[1:]), kw)
    s = getattr(fn, '__self__', None)
    if s is not None and not isinstance(s, types.ModuleType) and isinstance(s, (str, bytes, tuple, int, float)) and not isinstance(fn, type):
        return call_method(I, s, fn.__name__, args, kw)
    if isinstance(s, struct.Struct) and fn.__name__ in STRUCT:
        return STRUCT[fn.__name__](I, s.format, *args, **kw)
    if isinstance(s, re.Pattern) and all(isinstance(a, (str, int, bytes)) for a in args) and not kw:
        try:
            return ctx.wrap(fn(*args))
        except Exception as e:
            raise PyRaise(e)
    if isinstance(fn, (operator.itemgetter, operator.attrgetter, operator.methodcaller)):
        of, a = fn.__reduce__()         # (class, arguments)
        if isinstance(of, functools.partial):
            a, kws = of.args + a, of.keywords
        else:
            kws = {}
        if isinstance(fn, operator.methodcaller):
            return I.call(I.getattr(args[0], a[0]), list(a[1:]), dict(kws))

        def get(x):
            if isinstance(fn, operator.itemgetter):
                return getitem(args[0], x)
            v = args[0]
            for n in x.split('.'):
                v = I.getattr(v, n)
            return v
        return get(a[0]) if len(a) == 1 else tuple(get(x) for x in a)
    if getattr(operator, getattr(fn, '__name__', '') or '', None) is fn:
        r = operator_call(I, fn, args)
        if r is not MISS:
            return r
    if all(concrete(a) for a in args) and all(concrete(force(v)) for v in kw.values()):
        mod = getattr(fn, '__module__', None)
        if fn in PURE or mod in ('math', 're', 'urllib.parse', 'string', 'itertools', 'collections', 'textwrap') or \
                isinstance(fn, types.FunctionType) and mod in ('typing', 'functools', 'posixpath'):
            try:
                return ctx.wrap(fn(*args, **kw))
            except Exception as e:
                raise PyRaise(e)
    import collections
    if fn is collections.OrderedDict:
        d = m_dict(I, *args, **kw)
        d.cls = collections.OrderedDict
        return d
    if fn is collections.defaultdict:
        d = m_dict(I, *args[1:], **kw)
        d.default_factory = args[0] if args else None
        d.cls = collections.defaultdict
        return d
    if fn is collections.deque:
        raise Unsupported('deque')
    if fn is functools.partial:
        return functools.partial(*args, **kw)
    if isinstance(fn, type) and issubclass(fn, BaseException):
        return VObj(fn, {'args': tuple(args)})
    raise Unsupported('call to %s.%s without a contract' % (getattr(fn, '__module__', '?'), getattr(fn, '__qualname__', fn)))
