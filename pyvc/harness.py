"""Contracts ("units") over the real functions, their symbolic discharge and their concrete replay.

A unit is a Python function u(S): it builds a pre-state, calls real functions of the repository through S.call / S.run
and states postconditions with S.check.  The same text is used twice:
  * SymS    -- S.call interprets the function's current source symbolically, S.check generates a proof obligation
  * ConcS   -- S.call calls the function under CPython, S.check tests; inputs come from a Source (random, from a
               counter-model, or from a replay file)
"""
import ast
import asyncio
import builtins
import contextlib
import inspect
import os
import random as _random
import re
import signal
import socket
import sys
import textwrap
import threading
import time as _time
import traceback as _traceback
import types

import z3

from . import core, sched
from .core import (Atom, BaseMap, Control, Ctx, LazySeq, ModelObj, Opaque, PathDone, PyRaise, Restart, SBool, SBytes, SInt, SNum,
                   SReal, SStr, STATS, Seg, Unsupported, VAny, VByteArray, VDict, VList, VObj, bterm, force, int_term,
                   mk_str, real_term)

REPO = os.environ.get('PYVC_REPO', '/repo')
_real_time = _time.time


class _Missing(object):
    def __repr__(self):
        return '<missing>'


MISSING = _Missing()


class Unit(object):
    def __init__(self, prop, name, fn, bounded=None, sym=True, conc=True, unroll=None, trust=(), runs=150, tier='quick',
                 shards=0, uses=()):
        self.uses = tuple(uses)     # names of callee contracts
        self.prop, self.name, self.fn = prop, name, fn
        self.bounded, self.sym, self.conc, self.unroll = bounded, sym, conc, unroll or {}
        self.trust = list(trust)
        self.runs = runs
        self.tier = tier
        self.shards = shards        # the unit's first decision is a choice among this many alternatives: one process each

    @property
    def checks(self):
        """names of the postconditions written in the unit: each must be reached at least once"""
        src = textwrap.dedent(inspect.getsource(self.fn))
        out = []
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('check',) and n.args and \
                    isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                out.append(n.args[0].value)
        return out


UNITS = []
CALLEES = {}


class Callee(object):
    """the contract of a function of the code base, to be used at its call sites in place of its body; proved by another unit.
    apply(I, arguments as a dict) returns the result allowed by the contract, or NotImplemented to look into the body"""
    def __init__(self, module, qualname, proved_by, apply):
        self.module, self.qualname, self.proved_by, self._apply = module, qualname, proved_by, apply
        self.name = '%s.%s (proved by %s)' % (module, qualname, proved_by)

    def function(self):
        o = sys.modules.get(self.module)
        for n in self.qualname.split('.'):
            o = getattr(o, n, None)
        return o

    def apply(self, I, args, kwargs):
        try:
            b = inspect.signature(self.function()).bind(*args, **kwargs)
        except TypeError:
            return NotImplemented
        b.apply_defaults()
        return self._apply(I, dict(b.arguments))


def callee(module, qualname, proved_by):
    def deco(fn):
        CALLEES[fn.__name__] = Callee(module, qualname, proved_by, fn)
        return fn
    return deco


def unit(prop, name=None, **kw):
    def deco(fn):
        UNITS.append(Unit(prop, name or fn.__name__, fn, **kw))
        return fn
    return deco


class CheckFailed(Exception):
    def __init__(self, name):
        self.name = name
        Exception.__init__(self, name)


class Skip(Exception):
    """a concrete run whose inputs do not meet the precondition"""


class Timeout(BaseException):
    pass


class Outcome(object):
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def exc_class(self):
        return core.exc_class(self.exc) if self.exc is not None else None

    def raised(self, *cls):
        """an exception of one of the given classes (or a subclass) was raised"""
        return self.exc is not None and issubclass(self.exc_class, tuple(cls))


# ------------------------------------------------------------------ common to both modes
class SBase(object):
    MISSING = MISSING

    def And(self, *vs):
        return core.b_and(*[_b(v) for v in vs])

    def Or(self, *vs):
        return core.b_or(*[_b(v) for v in vs])

    def Not(self, v):
        return core.neg(_b(v))

    def Implies(self, a, b):
        return core.b_or(core.neg(_b(a)), _b(b))

    def Iff(self, a, b):
        a, b = _b(a), _b(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return SBool(bterm(a) == bterm(b))


def _b(v):
    v = force(v)
    if v is None:
        return False
    if isinstance(v, (bool, SBool)):
        return v
    if isinstance(v, SNum):
        return SBool(v.t != 0)
    return bool(v)


# ------------------------------------------------------------------ symbolic mode
class SymS(SBase):
    sym = True

    def __init__(self, ctx, explorer):
        self.ctx = ctx
        self.ex = explorer
        self.names = {}
        from . import models
        self.models = models
        models.environ()

    def _name(self, n):
        k = self.names.get(n, 0)
        self.names[n] = k + 1
        return n if k == 0 else '%s#%d' % (n, k)

    def _in(self, n, v):
        self.ctx.inputs[n] = v
        return v

    # ---- inputs
    def int(self, name, lo=None, hi=None, soft=None):
        """soft: replays draw values up to here; proofs have no such bound"""
        n = self._name(name)
        t = self.ctx.fresh('in_' + n, z3.IntSort())
        if lo is not None:
            self.ctx.add(t >= (lo.t if isinstance(lo, SInt) else lo))
        if hi is not None:
            self.ctx.add(t <= (hi.t if isinstance(hi, SInt) else hi))
        return self._in(n, SInt(t))

    def bits(self, name, n):
        return self.int(name, 0, (1 << n) - 1)

    def float(self, name, lo=None, hi=None, lo_open=False, hi_open=False, soft=None):
        """soft: replays draw values up to here (rounding); proofs have no such bound"""
        n = self._name(name)
        t = self.ctx.fresh('in_' + n, z3.RealSort())
        if lo is not None:
            l = real_term(lo)
            self.ctx.add(t > l if lo_open else t >= l)
        if hi is not None:
            h = real_term(hi)
            self.ctx.add(t < h if hi_open else t <= h)
        return self._in(n, SReal(t))

    def bool(self, name):
        n = self._name(name)
        return self._in(n, SBool(self.ctx.fresh('in_' + n, z3.BoolSort())))

    def str(self, name, no='', only=None, lower=False, minlen=0, maxlen=None, utf8=False):
        n = self._name(name)
        v = self.ctx.new_str('in_' + n, no=no, only=only, lower=lower, minlen=minlen, maxlen=maxlen)
        if utf8:
            for a in core.sparts(v):
                self.ctx.add(core.encodable(a.t))
        return self._in(n, v)

    def cased(self, name, low):
        """the literal `low` in any letter case"""
        n = self._name(name)
        return self._in(n, self.ctx.cased('in_' + n, low))

    def bytes(self, name, minlen=0):
        n = self._name(name)
        return self._in(n, core.raw_bytes('in_' + n, minlen))

    def hexstr(self, name, n=None):
        """a string that is the base-16 text of n, in any padding and letter case"""
        nm = self._name(name)
        v = self.ctx.new_str('in_' + nm, only='0123456789abcdefABCDEF', minlen=1)
        self.ctx.add(core.ishex(core.sterm(v)))
        if n is not None:
            self.ctx.add(core.hexval(core.sterm(v)) == int_term(n))
        return self._in(nm, v)

    def choose(self, name, options):
        """one of finitely many alternatives (case split); options: list of values or of (label, thunk)"""
        n = self._name(name)
        i = self.ctx.choose(len(options), n) if len(options) > 1 else 0
        self._in(n, i)
        return _opt(options[i])

    def any(self, name, alts):
        """lazy case split: alts is a list of (label, thunk)"""
        n = self._name(name)
        v = VAny(n, list(alts))
        return self._in(n, v)

    def value(self, name, kinds=('none', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'tuple', 'dict', 'obj')):
        mk = dict(self._kinds(name))
        n = self._name(name)
        return self._in(n, VAny(n, [(k, mk[k]) for k in kinds]))

    def _kinds(self, name):
        return kinds_of(self, name)

    def opaque(self, label='object', cls=object):
        return Opaque(label, cls)

    def sub(self, v):
        """the same int, float or str as a value of a class derived from that"""
        v = force(v)
        if isinstance(v, (int, float, str)):
            return v
        return core.SubInt(v.t) if isinstance(v, SInt) else core.SubReal(v.t) if isinstance(v, SReal) else core.SubStr(v.parts)

    def traceback(self):
        return Opaque('traceback', types.TracebackType)

    def tb_text(self, tb):
        """the text of a formatted traceback"""
        return self.cat(*self.models.tb_pieces(force(tb)))

    def dict(self, name, key=None, val=None, entries=(), ok=None, rest=True, cls=dict):
        """a dictionary with the given entries and (rest) arbitrary other ones, in arbitrary order"""
        n = self._name(name)
        okf = None
        if ok is not None:
            okf = lambda q: ok(q)   # noqa: E731
        b = BaseMap(n, key, (lambda q: val()), okf, rest=rest and key is not None)
        for k, v in entries:
            b.entries.append((k, v))
        d = VDict(b, cls=cls)
        return self._in(n, d)

    def newdict(self, entries=()):
        d = VDict()
        for k, v in entries:
            d.set(k, v)
        return d

    def list(self, name, elem, minlen=0):
        n = self._name(name)
        t = self.ctx.fresh('len_' + n, z3.IntSort())
        self.ctx.add(t >= minlen)
        s = Seg(SInt(t), elem)
        v = VList([s])
        self._in('len ' + n, SInt(t))
        return v

    def seg(self, name, elem):
        """arbitrarily many elements, to be put among known ones with newlist"""
        n = self._name(name)
        t = self.ctx.fresh('len_' + n, z3.IntSort())
        self.ctx.add(t >= 0)
        self._in('len ' + n, SInt(t))
        return Seg(SInt(t), elem)

    def newlist(self, items=()):
        return VList(list(items))

    def packed(self, name, make, pack):
        """any number .n of records made by make() (tuples) and packed into bytes by pack(*record), one after another: .data"""
        n = self.int('number of ' + name, lo=0)
        q = core.Packed(name, n, lambda: pack(*make()))
        q.data = core.mk_bytes([q.part(z3.IntVal(0), core.int_term(n))])
        return q

    def cut_loops(self, total, at):
        """loops of so many rounds are looked at in three parts: before the round with this number, it, and after it"""
        self.ctx.splits.append((total, at))

    def joined(self, sep, items):
        """sep.join(items), where arbitrarily many items (seg) may be among them and none contains sep"""
        def chk(v):
            if not all(sep not in q if isinstance(q, str) else q.excludes(sep) for q in core.sparts(v)):
                raise Unsupported('joined item may contain the separator')
            return v
        parts = [Seg(p.count, (lambda g: lambda: chk(g()))(p.gen)) if isinstance(p, Seg) else chk(p) for p in items]
        if not any(isinstance(p, Seg) for p in parts):
            return mk_str([q for k, p in enumerate(parts) for q in ((sep,) if k else ()) + tuple(core.sparts(p))])
        if all(isinstance(p, Seg) for p in parts):
            raise Unsupported('joined needs one definite item')
        v = self.ctx.new_str('joined')
        v.parts[0].meta['joinof'] = (sep, parts)
        return v

    def bytearray(self, b=b''):
        return VByteArray(b)

    # ---- state
    def set_time(self, v):
        if self.ctx.clock is None:
            self.ctx.clock = self.models.Clock()
        self.ctx.clock.fixed = v

    def readings(self):
        return list(self.ctx.clock.readings) if self.ctx.clock else []

    def draws(self):
        return list(self.ctx.draws)

    def environ(self, entries):
        d = VDict()
        for k, v in entries:
            d.set(k, v)
        self.ctx.modvars[('os', 'environ')] = d

    def interest(self, *ks):
        self.ctx.interest.extend(ks)

    def candidate(self, thunk):
        """a loop-invariant candidate; used only where it is established and preserved"""
        self.ctx.cands.append(thunk)

    def fields(self, o):
        """the names of its attributes: to propose candidates without knowing them"""
        return sorted(core.force(o).fields)

    def class_candidate(self, cls, fn):
        """a candidate invariant of objects of a class that a loop stores; used only where established and preserved"""
        self.ctx.class_cands.setdefault(cls, []).append(fn)

    def json_loads(self, thunk):
        self.ctx.hooks['json.loads'] = lambda I, s: thunk(s)

    def future(self, value=None, exc=None):
        """a completed future: with a result, or with an exception of class exc"""
        f = self.models.VFuture()
        if exc is not None:
            f.set_exception(self.ctx.mk_exc(exc, ('failed',)))
        else:
            f.set_result(value)
        return f

    def pending(self):
        """a future that has not completed"""
        return self.models.VFuture()

    def settle(self):
        """let callbacks of completed futures run"""

    def futures(self):
        """those there are (proofs only)"""
        return [o for o in self.ctx.objects if isinstance(o, self.models.VFuture)]

    def item_source(self, start, make):
        """numbered items, taken one after the other; start(): how many of them have been dealt with"""
        return core.ItemSource(start)

    def held(self, l, src, number):
        """to be established, never assumed: the list consists of the items taken and not yet dealt with, in order"""
        l = force(l)
        ps = core.expand(l.parts) if isinstance(l, VList) else list(l)
        return core.held_items(ps) is src if ps else core.eq(src.start(), src.taken)

    def numbered(self, l, src, number, lo, hi):
        """to be established, never assumed: the list consists of the items lo..hi-1, in order"""
        l = force(l)
        return core.is_numbered(l.parts if isinstance(l, VList) else list(l), src, lo, hi)

    def raise_(self, cls, *args):
        """raise an exception (from a stand-in of the environment)"""
        raise PyRaise(self.ctx.mk_exc(cls, args))

    def hook(self, name, fn):
        self.ctx.hooks[name] = fn

    def setfield(self, obj, name, v):
        self.ctx.interp.setattr(obj, name, v)

    def replace(self, owner, name, v):
        """what a module (or class) attribute is for the rest of this run"""
        self.ctx.interp.setattr(owner, name, v)

    def invariant(self, obj, fn):
        """declare an object invariant: fn(obj) -> [(name, condition)], checked at the end of every loop step"""
        obj.inv = fn

    # ---- running real code
    def call(self, fn, *a, **k):
        try:
            return Outcome(core.force(self.ctx.interp.call(fn, list(a), k)))
        except PyRaise as e:
            return Outcome(exc=e.exc)

    def run(self, fn, *a, **k):
        """a call that must not raise"""
        r = self.call(fn, *a, **k)
        if not r.ok:
            self.ex.obligation(self.ctx, 'no exception from %s' % _fname(fn), False, note=exc_text(r.exc))
            raise PathDone()
        return r.value

    new = run

    def attr(self, obj, name, default=MISSING):
        try:
            return core.force(self.ctx.interp.getattr(obj, name))
        except PyRaise as e:
            if default is not MISSING and issubclass(core.exc_class(e.exc), AttributeError):
                return default
            raise

    # ---- statements
    def check(self, name, cond, note=None):
        self.ex.obligation(self.ctx, name, _b(cond), note=note)
        return True

    def assume(self, cond):
        self.ctx.assume(bterm(_b(cond)))

    def feasible(self):
        self.ctx.assume_feasible()

    def case(self, cond):
        """case split"""
        return core.truth(cond)

    # ---- spec functions
    def eq(self, a, b):
        return core.eq(force(a), force(b))

    def same(self, a, b):
        """same type and value"""
        return sym_same(a, b)

    def same_list(self, l, items):
        """l is a list/tuple of exactly these items, in order (same type and value each)"""
        l = force(l)
        if isinstance(l, VList):
            xs = core.expand(l.parts)
        elif isinstance(l, (tuple, list)):
            xs = list(l)
        else:
            return False
        items = core.expand(list(items))
        if len(xs) != len(items):
            return False
        return self.And(*[x is y if isinstance(x, Seg) or isinstance(y, Seg) else self.same(x, y) for x, y in zip(xs, items)])

    def some(self, l, pred):
        """to be established, never assumed: some element of the list satisfies pred (elements known one by one only)"""
        l = force(l)
        xs = core.expand(l.parts) if isinstance(l, VList) else list(l)
        return self.Or(False, *[pred(x) for x in xs if not isinstance(x, Seg)])

    def every(self, l, pred):
        """to be established, never assumed: every element of the list satisfies pred"""
        l = force(l)
        xs = core.expand(l.parts) if isinstance(l, VList) else list(l)
        segs = []
        for x in xs:
            if isinstance(x, Seg) and not any(x.gen is y.gen for y in segs):
                segs.append(x)
        # one kind of element at a time: what must hold for every element must hold on each of these paths
        j = self.ctx.choose(len(segs) + 1, 'every') if segs else 0
        if j:
            return self.And(True, pred(segs[j - 1].gen()))
        return self.And(True, *[pred(x) for x in xs if not isinstance(x, Seg)])

    def in_order(self, l, preds):
        """to be established, never assumed: elements satisfying these predicates occur in this order"""
        l = force(l)
        xs = [x for x in (core.expand(l.parts) if isinstance(l, VList) else list(l)) if not isinstance(x, Seg)]

        def go(i, j):
            if j == len(preds):
                return True
            if len(xs) - i < len(preds) - j:
                return False
            return self.Or(self.And(preds[j](xs[i]), go(i + 1, j + 1)), go(i + 1, j))
        return go(0, 0)

    def parts(self, l):
        """the list as it is now, for grown()"""
        l = force(l)
        return list(core.expand(l.parts)) if isinstance(l, VList) else list(l)

    def grown(self, old, l):
        """the records appended to a list since old = parts(list), or None if it does not begin with the very same elements"""
        xs, old = self.parts(l), core.expand(old)
        if len(xs) < len(old) or any(a is not b for a, b in zip(old, xs)) or any(isinstance(x, Seg) for x in xs[len(old):]):
            return None
        return xs[len(old):]

    def is_(self, a, b):
        return force(a) is force(b)

    def isinstance(self, o, cls):
        return self.models.m_isinstance(self.ctx.interp, o, cls)

    def len(self, v):
        return self.models.m_len(self.ctx.interp, v)

    def str_of(self, v):
        return self.models.m_str(self.ctx.interp, v)

    def items(self, l):
        """the elements of a list of known length"""
        l = force(l)
        if isinstance(l, VList):
            if not l.concrete():
                raise Unsupported('list of unknown length')
            return list(l.parts)
        return list(l)

    def lookup(self, d, k):
        d = force(d)
        if isinstance(d, dict):
            d = self.ctx.wrap(d)
        if not isinstance(d, VDict):
            raise Unsupported('lookup in %r' % (d,))
        f, v = d.lookup(k)
        return v if f else MISSING

    def has(self, d, k):
        return self.lookup(d, k) is not MISSING

    def locks(self, o):
        """the locks an object owns"""
        return [v for v in o.fields.values() if isinstance(v, self.models.VLock)]

    def unlocked(self, o):
        """the locks an object owns are free"""
        return all(not l.held for l in self.locks(o))

    def plain(self, v):
        """a value of several kinds, with its kind decided"""
        return force(v)

    def same_object(self, a, b):
        return force(a) is force(b)

    def snap(self, o):
        """the present content of a dict or list"""
        o = force(o)
        if isinstance(o, VDict):
            return o.copy_of()
        if isinstance(o, VList):
            return VList(o.parts, o.is_tuple)
        if isinstance(o, VByteArray):
            return o.b
        if isinstance(o, VObj):
            return VObj(o.cls, dict(o.fields))
        raise Unsupported('snapshot of %r' % (o,))

    def same_at(self, d1, d2, k):
        """both dictionaries agree at key k"""
        a, b = self.lookup(d1, k), self.lookup(d2, k)
        if a is MISSING or b is MISSING:
            return a is b
        if a is b:
            return True
        return self.same(a, b)

    def same_dict(self, d1, d2, at):
        """same entries; the symbolic check is pointwise at the arbitrary key `at`"""
        return self.And(self.same_at(d1, d2, at))

    def unchanged_fields(self, o, snap, except_=()):
        fs = set(o.fields) | set(snap.fields)
        out = []
        for f in sorted(fs):
            if f in except_:
                continue
            if f not in o.fields or f not in snap.fields:
                return False
            a, b = o.fields[f], snap.fields[f]
            out.append(True if a is b else self.same(a, b))
        return self.And(*out)

    def ishex(self, s):
        """int(s, 16) succeeds"""
        try:
            n = self.models.m_int(self.ctx.interp, s, 16)
        except PyRaise:
            return False
        return True

    def hexval(self, s):
        return self.models.m_int(self.ctx.interp, s, 16)

    def split(self, s, sep):
        return self.models.str_split(self.ctx.interp, s, sep)

    def approx(self, a, b, tol=1e-9):
        return core.eq(SReal(real_term(a)), SReal(real_term(b)))

    def blurred(self, a, b):
        """floating-point rounding may decide how a and b compare (arithmetic is exact in the proofs)"""
        return False

    def tail(self, s, n):
        return core.str_sub(s, n, None)

    def fmt_hex(self, n):
        return core.fmt_hex(n)

    def hexpad(self, n, w):
        return core.zfill(core.fmt_hex(n), w)

    def lower(self, s):
        return core.str_lower(s)

    def bcat(self, *ps):
        return core.mk_bytes([q for p in ps for q in core.bparts(p)])

    def _pack(self, f, v):
        import struct
        return self.models.MODELS[struct.pack](self.ctx.interp, f, v)

    def u64be(self, v):
        return self._pack('>Q', v)

    def u32be(self, v):
        return self._pack('>I', v)

    def u8(self, v):
        return self._pack('>B', v)

    def utf8(self, s):
        """the UTF-8 encoding of a string that has one"""
        return self.ctx.interp.call(self.ctx.interp.getattr(s, 'encode'), ['utf-8'], {})

    def bstarts(self, b, p):
        r = core.bytes_split_at(b, core.blength(p))
        return r is not None and core.bytes_eq(r[0], p)

    def bfind(self, b, piece, after=0):
        """piece occurs in b at an offset >= after"""
        r = core.bytes_split_at(b, after)
        if r is None:
            return False
        ps, qs = list(core.bparts(r[1])), list(core.bparts(piece))
        n = len(qs)
        return self.Or(*[core.bytes_eq(core.mk_bytes(ps[i:i + n]), piece) for i in range(len(ps) - n + 1)])

    def query(self, url):
        """(what is before the query, list of the pairs in it) of a URL"""
        ps = core.sparts(url)
        if len(ps) == 1 and not isinstance(ps[0], str) and 'urlof' in ps[0].meta:
            return ps[0].meta['urlof']
        return url, VList([])

    def quote(self, s):
        """urllib.parse.quote of a string that has a UTF-8 encoding"""
        for p in core.sparts(s):
            if not isinstance(p, str):
                self.ctx.add(core.encodable(p.t))
        import urllib.parse
        return self.models.MODELS[urllib.parse.quote](self.ctx.interp, s)

    def startswith(self, s, p):
        r = core.str_startswith(s, p)
        return r

    def cut(self, s, n):
        """first n characters"""
        return core.str_sub(s, 0, n)

    def cat(self, *ps):
        return mk_str([x for p in ps for x in core.sparts(p)])

    def int_of(self, v):
        try:
            return self.models.m_int(self.ctx.interp, v)
        except PyRaise:
            return None

    def less(self, a, b):
        return core.compare('<', a, b)

    def div(self, a, b):
        return core.binop('//', a, b)

    def mod(self, a, b):
        return core.binop('%', a, b)

    def band(self, a, b):
        return core.binop('&', a, b)

    def bor(self, a, b):
        return core.binop('|', a, b)

    def trunc(self, x):
        return self.models.m_int(self.ctx.interp, x)

    def real(self, x):
        return SReal(real_term(x))

    def max(self, a, b):
        if core.is_realish(a) or core.is_realish(b):
            return SReal(z3.If(real_term(a) >= real_term(b), real_term(a), real_term(b)))
        return core.fold_int(z3.If(int_term(a) >= int_term(b), int_term(a), int_term(b)))

    def min(self, a, b):
        return -self.max(-a, -b)

    def data(self, b):
        """content of a bytearray"""
        b = force(b)
        return b.b if isinstance(b, VByteArray) else b


def _forcing(cls, names):
    for n in names:
        f = getattr(cls, n)

        def g(self, *a, _f=f, **k):
            return _f(self, *[force(x) for x in a], **k)
        setattr(cls, n, g)


_forcing(SymS, ['len', 'str_of', 'ishex', 'hexval', 'split', 'fmt_hex', 'hexpad', 'lower', 'startswith', 'cut', 'cat', 'int_of', 'div',
                'mod', 'band', 'bor', 'trunc', 'real', 'max', 'min', 'data', 'quote', 'bcat', 'u64be', 'u32be', 'u8', 'utf8', 'bstarts', 'bfind', 'tail', 'approx', 'isinstance'])


def _fname(fn):
    return getattr(fn, '__qualname__', None) or getattr(fn, '__name__', None) or repr(fn)


def exc_text(e):
    try:
        if isinstance(e, VObj):
            return '%s%r' % (e.cls.__name__, tuple(e.fields.get('args', ())))
        return '%s: %s' % (type(e).__name__, e)
    except Exception:
        return '?'


def _opt(o):
    if isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], str) and callable(o[1]):
        return o[1]()
    return o


def kinds_of(S, name):
    return [('none', lambda: None), ('bool', lambda: S.bool(name + '.bool')), ('int', lambda: S.int(name + '.int')),
            ('float', lambda: S.float(name + '.float')), ('str', lambda: S.str(name + '.str')),
            ('bytes', lambda: S.bytes(name + '.bytes')),
            ('list', lambda: S.list(name + '.list', lambda: S.str(name + '.elem'))),
            ('list1', lambda: S.newlist([S.str(name + '.elem1')])),
            ('tuple', lambda: (S.int(name + '.t0'), S.str(name + '.t1'))),
            ('tuple0', lambda: ()),
            ('dict', lambda: S.dict(name + '.dict', key=lambda: S.str(name + '.key'), val=lambda: S.int(name + '.val'))),
            ('obj', lambda: S.opaque('thing'))]


def sym_same(a, b):
    """same kind and value (mutable objects: same content for lists and dicts of known content, else identity)"""
    a, b = force(a), force(b)
    if a is b:
        return True
    if a is MISSING or b is MISSING or a is None or b is None:
        return False
    isb = lambda x: isinstance(x, (bool, SBool))   # noqa: E731
    if isb(a) or isb(b):
        if not (isb(a) and isb(b)):
            return False
        return core.eq(a, b)
    if core.is_numeric(a) or core.is_numeric(b):
        return core.eq(a, b) if core.is_numeric(a) and core.is_numeric(b) else False
    if core.is_str(a) or core.is_str(b):
        return core.eq(a, b) if core.is_str(a) and core.is_str(b) else False
    if isinstance(a, (bytes, SBytes)) or isinstance(b, (bytes, SBytes)):
        return core.eq(a, b) if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)) else False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return core.b_and(*([len(a) == len(b)] + [sym_same(x, y) for x, y in zip(a, b)]))
    if isinstance(a, VList) and isinstance(b, VList) and a.is_tuple == b.is_tuple and a.concrete() and b.concrete():
        return core.b_and(*([len(a.parts) == len(b.parts)] + [sym_same(x, y) for x, y in zip(a.parts, b.parts)]))
    if isinstance(a, VList) and isinstance(b, VList) and len(a.parts) == len(b.parts) and all(x is y for x, y in zip(a.parts, b.parts)):
        return True
    if isinstance(a, VDict) and isinstance(b, VDict):
        return core.eq(a, b)
    if isinstance(a, (int, float, str, bytes, type)) and isinstance(b, (int, float, str, bytes, type)):
        return a == b
    return False


# ------------------------------------------------------------------ exploration of one unit
class Explorer(object):
    def __init__(self, u, budget_s=120, max_paths=400000, start=()):
        self.start = list(start)
        self.u = u
        self.contracts = {}
        for n in u.uses:
            c = CALLEES[n]
            f = c.function()
            if f is not None:
                self.contracts[f] = c
        self.used_contracts = set()
        self.used_models = set()
        self.trace_functions = set()
        self.loop_abs = {}
        self.eager = {}             # values whose kind is decided before a loop phase begins
        self.cls_dropped = set()
        self.loop_phases = 0
        self.loop_steps = 0
        self.step_depth = 0
        self.while_unroll = u.unroll
        self.bounded = bool(u.bounded)
        self.stack = []
        self.results = {}
        self.fail_inputs = {}
        self.paths = 0
        self.completed = 0
        self.restarts = 0
        self.trouble = []
        self.deadline = _real_time() + budget_s
        self.max_paths = max_paths
        self.max_depth = 0

    def is_unit_for(self, fn):
        return False

    def pending(self, prefix):
        self.stack.append(list(prefix))

    def obligation(self, ctx, name, claim, note=None):
        key = (tuple(ctx.decisions), name, ctx.ob_index.get((len(ctx.decisions), name), 0))
        ctx.ob_index[(len(ctx.decisions), name)] = key[2] + 1
        old = self.results.get(key)
        if old is not None:
            return
        t0 = _real_time()
        st, info = ctx.prove(claim)
        dt = _real_time() - t0
        self.results[key] = (st, dt, 'cvc5' if info == 'cvc5' else 'z3')
        if st != 'proved':
            det = {'name': name, 'status': st, 'note': note or '', 'inputs': {}}
            if st == 'refuted':
                if info is None and ctx._check() == z3.sat:
                    info = ctx.solver.model()
                if info is not None:
                    try:
                        det['inputs'] = Concretizer(ctx, info).all_inputs()
                    except Exception as e:   # noqa: B902
                        det['note'] += ' [no concrete inputs: %s]' % e
                try:
                    det['claim'] = str(claim)[:600]
                except Exception:
                    pass
            else:
                det['note'] = '%s %s' % (note or '', info)
            self.fail_inputs[key] = det

    def drop(self, prefix, phase):
        n = len(prefix)
        p = tuple(prefix)

        def ext(k):
            return len(k) >= n and k[:n] == p
        self.stack = [s for s in self.stack if not ext(tuple(s))]
        for k in [k for k in self.results if ext(k[0])]:
            del self.results[k]
            self.fail_inputs.pop(k, None)
        for k in [k for k in self.loop_abs if ext(k[0]) and k[1] > phase]:
            del self.loop_abs[k]
        self.trouble = [t for t in self.trouble if not ext(t[0])]

    def run(self):
        from .interp import Interp
        from . import models
        self.stack = [self.start]
        while self.stack:
            if _real_time() > self.deadline:
                self.trouble.append(((), 'time budget exhausted after %d paths' % self.paths))
                break
            if self.paths >= self.max_paths:
                self.trouble.append(((), 'path budget exhausted'))
                break
            prefix = self.stack.pop()
            self.paths += 1
            ctx = Ctx(self, prefix, Interp)
            ctx.ob_index = {}
            S = SymS(ctx, self)
            try:
                self.u.fn(S)
                if ctx._check() == z3.sat:
                    self.completed += 1
            except PathDone:
                pass
            except Restart as r:
                self.restarts += 1
                if self.restarts > 4000:
                    self.trouble.append(((), 'loop abstraction does not stabilise'))
                    break
                self.drop(r.prefix, r.phase)
                self.stack.append(list(r.prefix))
            except PyRaise as e:
                self.obligation(ctx, 'no exception escapes', False, note=exc_text(e.exc))
            except Unsupported as e:
                self.trouble.append((tuple(ctx.decisions), 'outside the verifier\'s reach: %s' % e))
                if os.environ.get('PYVC_DEBUG'):
                    _traceback.print_exc()
                if len(self.trouble) > 20:
                    break
            except models.Deadlock as e:
                self.obligation(ctx, 'terminates', False, note=str(e))
            except RecursionError:
                self.trouble.append((tuple(ctx.decisions), 'recursion too deep'))
            except z3.Z3Exception as e:
                self.trouble.append((tuple(ctx.decisions), 'solver error: %s' % e))
                if os.environ.get('PYVC_DEBUG'):
                    _traceback.print_exc()
            except Exception as e:   # noqa: B902  an error of the harness on this path: undecided
                self.trouble.append((tuple(ctx.decisions), 'harness error: %r' % (e,)))
                if os.environ.get('PYVC_DEBUG'):
                    _traceback.print_exc()
            finally:
                core.set_ctx(None)
            self.max_depth = max(self.max_depth, len(ctx.decisions))
        return self


def prove_unit(u, budget_s=120, shard=None):
    """-> result dictionary (of one shard)"""
    t0 = _real_time()
    q0, s0, c0 = STATS.queries, STATS.time, STATS.cvc5
    sys.setrecursionlimit(20000)
    start = [] if shard is None else ['C%d' % shard]
    ex = Explorer(u, budget_s, start=start)
    ex.run()
    names = {}
    for (d, n, i), (st, dt, by) in ex.results.items():
        e = names.setdefault(n, {'count': 0, 'proved': 0, 'time': 0.0})
        e['count'] += 1
        e['time'] += dt
        if st == 'proved':
            e['proved'] += 1
    failed = []
    seen = {}
    for k, det in ex.fail_inputs.items():
        if seen.get(det['name'], 0) < 4:
            failed.append(det)
        seen[det['name']] = seen.get(det['name'], 0) + 1
    trouble = []
    for d, t in ex.trouble:
        if t not in trouble:
            trouble.append(t)
    return {'unit': u.name, 'prop': u.prop, 'obligations': names, 'failed': failed, 'trouble': trouble, 'paths': ex.paths,
            'completed': ex.completed, 'restarts': ex.restarts, 'loop_phases': ex.loop_phases, 'loop_steps': ex.loop_steps,
            'functions': sorted(ex.trace_functions), 'contracts': sorted(ex.used_contracts),
            'models': sorted(ex.used_models), 'queries': STATS.queries - q0, 'solver_s': STATS.time - s0,
            'cvc5': STATS.cvc5 - c0, 'wall_s': _real_time() - t0,
            'by_cvc5': sum(1 for v in ex.results.values() if v[2] == 'cvc5')}


def merge_proofs(u, rs):
    """the results of a unit's shards as one; adds the vacuity checks"""
    out = dict(rs[0])
    for r in rs[1:]:
        for n, e in r['obligations'].items():
            o = out['obligations'].setdefault(n, {'count': 0, 'proved': 0, 'time': 0.0})
            for k in o:
                o[k] += e[k]
        out['failed'] = out['failed'] + r['failed']
        out['trouble'] = out['trouble'] + [t for t in r['trouble'] if t not in out['trouble']]
        for k in ('paths', 'completed', 'restarts', 'loop_phases', 'loop_steps', 'queries', 'solver_s', 'cvc5', 'by_cvc5'):
            out[k] += r[k]
        for k in ('functions', 'contracts', 'models'):
            out[k] = sorted(set(out[k]) | set(r[k]))
        out['wall_s'] = max(out['wall_s'], r['wall_s'])
    trouble = out['trouble']
    if not out['obligations'] and not trouble:
        trouble.append('no obligation was generated (vacuous contract)')
    if not out['completed'] and not trouble and not out['failed']:
        trouble.append('no path of the contract completes (contradictory precondition?)')
    if not out['failed'] and not trouble:
        for c in u.checks:
            if c not in out['obligations']:
                trouble.append('postcondition never reached: %s' % c)
    return out


# ------------------------------------------------------------------ counter-model -> concrete inputs
class Concretizer(object):
    def __init__(self, ctx, model):
        self.ctx, self.m = ctx, model
        self.cache = {}

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def all_inputs(self):
        out = {}
        for n, v in self.ctx.inputs.items():
            try:
                out[n] = self.conc(v)
            except _NoConc:
                pass
        for v, b in self.ctx.draws:
            out.setdefault('draws', []).append((int(self.conc(v)), b))
        if self.ctx.clock is not None and self.ctx.clock.fixed is None:
            out['clock'] = [float(self.conc(v)) for v in self.ctx.clock.readings]
        return out

    def conc(self, v):
        if isinstance(v, VAny):
            if not v.done:
                raise _NoConc()
            # index of the alternative
            for j, (lab, _) in enumerate(v.alts):
                if (v.name, lab) in self.ctx.resolved:
                    return j
            raise _NoConc()
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return v
        if isinstance(v, SBool):
            return z3.is_true(self.ev(v.t))
        if isinstance(v, SInt):
            return self.ev(v.t).as_long()
        if isinstance(v, SReal):
            return self.real(v.t)
        if isinstance(v, SStr):
            return ''.join(p if isinstance(p, str) else self.string(p) for p in v.parts)
        if isinstance(v, SBytes):
            raise _NoConc()
        if isinstance(v, VDict):
            out = []
            if v.base is not None:
                for k, x in v.base.entries:
                    try:
                        out.append((self.conc(k), self.conc(x)))
                    except _NoConc:
                        pass
            return out
        if isinstance(v, tuple):
            return tuple(self.conc(x) for x in v)
        if isinstance(v, VList) and v.concrete():
            return [self.conc(x) for x in v.parts]
        raise _NoConc()

    def real(self, t):
        x = self.ev(t)
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        f = x.numerator_as_long() / x.denominator_as_long()
        return f

    def string(self, a):
        t = a.t
        k = self.ev(t)
        # equal to a literal?
        for s, l in self.ctx.lits.items():
            if self.ev(l).eq(k):
                return s
        key = k.sexpr()
        if key in self.cache:
            return self.cache[key]
        m = a.meta
        if 'cased' in m:
            s = m['cased'].upper() if len(self.cache) % 2 else m['cased'].title()
            self.cache[key] = s
            return s
        s = None
        if z3.is_true(self.ev(core.ishex(t))) and any(h is not None for h in [1]):
            n = self.ev(core.hexval(t)).as_long()
            s = format(n, 'x') if n >= 0 else '-' + format(-n, 'x')
            ln = self.ev(core.slen(t)).as_long()
            if n >= 0 and len(s) < ln < 200:
                s = s.zfill(ln)
        elif z3.is_true(self.ev(core.isdec(t))):
            s = str(self.ev(core.decval(t)).as_long())
        else:
            best = ''
            for p in self.ctx.prefixes:
                if len(p) > len(best) and z3.is_true(self.ev(core.sstarts(t, self.ctx.lit(p)))):
                    best = p
            ln = self.ev(core.slen(t)).as_long()
            ln = min(max(ln, 0), 3000)
            body = 'z%dq' % len(self.cache)
            s = best + body
            if len(s) < ln:
                s += 'y' * (ln - len(s))
            elif len(s) > ln > 0:
                s = s[:ln]
        if 'only' in m and any(c not in m['only'] for c in s):
            s = ''.join(c if c in m['only'] else sorted(m['only'])[0] for c in s)
        self.cache[key] = s
        return s


class _NoConc(Exception):
    pass


# ------------------------------------------------------------------ concrete mode
def harvest():
    """constants of the repository's sources, used as boundary inputs"""
    strs, ints = set(), set()
    for root, _, files in os.walk(os.path.join(REPO, 'jaeger_client')):
        if 'thrift_gen' in root:
            continue
        for f in sorted(files):
            if f.endswith('.py'):
                try:
                    tree = ast.parse(open(os.path.join(root, f)).read())
                except (SyntaxError, UnicodeDecodeError):
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant):
                        if isinstance(n.value, str) and len(n.value) < 60 and '\n' not in n.value:
                            strs.add(n.value)
                        elif isinstance(n.value, int) and not isinstance(n.value, bool):
                            ints.add(n.value)
    return sorted(strs), sorted(ints)


_POOL = None


def pool():
    global _POOL
    if _POOL is None:
        _POOL = harvest()
    return _POOL


class Source(object):
    """answers input requests; logs every answer by name"""
    def __init__(self, seed, given=None):
        self.r = _random.Random(seed)
        self.given = dict(given or {})
        self.log = {}

    def take(self, name, gen, valid=lambda v: True):
        if name in self.given:
            v = self.given[name]
            try:
                if valid(v):
                    self.log[name] = v
                    return v
            except Exception:
                pass
        for _ in range(200):
            v = gen()
            if valid(v):
                break
        else:
            raise Skip(name)
        self.log[name] = v
        return v


class ConcS(SBase):
    sym = False

    def __init__(self, source):
        self.src = source
        self.r = source.r
        self.names = {}
        self.clock = ConcClock(self)
        self._draws = []
        self._env = {}
        self._hooks = {}
        self._json = None
        self.done_checks = []

    _name = SymS._name

    # ---- inputs
    def int(self, name, lo=None, hi=None, soft=None):
        n = self._name(name)
        return self.src.take(n, lambda: self.rint(lo, soft if soft is not None else hi),
                             lambda v: isinstance(v, int) and (lo is None or v >= lo) and (hi is None or v <= hi))

    def rint(self, lo, hi):
        r = self.r
        k = r.random()
        if k < 0.25:
            c = [x for x in (0, 1, 2, 3, -1) if True]
            if lo is not None:
                c += [lo, lo + 1]
            if hi is not None:
                c += [hi, hi - 1]
            v = r.choice(c)
        elif k < 0.6:
            e = r.choice([1, 3, 7, 8, 15, 16, 31, 32, 52, 53, 63, 64, 65, 100, 127, 128])
            v = (1 << e) + r.choice([-1, 0, 1])
            if lo is None and r.random() < 0.3:
                v = -v
            if r.random() < 0.3:
                v += r.getrandbits(max(e - 1, 1))
        elif k < 0.7:
            v = r.choice(pool()[1]) + r.choice([-1, 0, 1])
        elif lo is not None and hi is not None:
            v = r.randint(lo, hi)
        else:
            v = r.getrandbits(r.choice([4, 8, 16, 64, 128])) - (0 if lo is not None else r.choice([0, 1 << 30]))
        if lo is not None and v < lo or hi is not None and v > hi:
            if lo is not None and hi is not None:
                v = r.choice([lo, hi, r.randint(lo, hi)])
            else:
                v = (lo + abs(v) % 1000) if lo is not None else hi - abs(v) % 1000
        return v

    def bits(self, name, n):
        return self.int(name, 0, (1 << n) - 1)

    def float(self, name, lo=None, hi=None, lo_open=False, hi_open=False, soft=None):
        n = self._name(name)
        if hi is None:
            hi = soft

        def ok(v):
            return isinstance(v, (float, int)) and (lo is None or (v > lo if lo_open else v >= lo)) and \
                (hi is None or (v < hi if hi_open else v <= hi))

        def gen():
            r = self.r
            k = r.random()
            if k < 0.3:
                return float(r.choice([x for x in (lo, hi, 0, 1, -1, 0.5, 2) if x is not None]))
            if lo is not None and hi is not None:
                return r.choice([r.uniform(lo, hi), r.randint(0, 8) / 8.0 * (hi - lo) + lo])
            v = r.choice([r.uniform(0, 10), r.uniform(0, 2e9), r.randint(0, 1000), r.random() * 1e-6, r.randint(0, 64) / 8.0])
            if lo is not None:
                return lo + v
            return v if r.random() < 0.7 else -v
        return self.src.take(n, lambda: float(gen()), ok)

    def bool(self, name):
        n = self._name(name)
        return self.src.take(n, lambda: self.r.random() < 0.5, lambda v: isinstance(v, bool))

    def str(self, name, no='', only=None, lower=False, minlen=0, maxlen=None, utf8=False):
        n = self._name(name)

        def ok(v):
            return isinstance(v, str) and not any(c in no for c in v) and (only is None or all(c in only for c in v)) and \
                (not lower or v == v.lower()) and len(v) >= minlen and (maxlen is None or len(v) <= maxlen) and (not utf8 or not any(0xd800 <= ord(c) < 0xe000 for c in v))
        return self.src.take(n, lambda: self.rstr(no, only, lower, minlen, maxlen), ok)

    def cased(self, name, low):
        n = self._name(name)
        return self.src.take(n, lambda: self.r.choice([low, low.upper(), low.title(), ''.join(self.r.choice([c, c.upper()]) for c in low)]),
                             lambda v: v.lower() == low)

    ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFXYZ0123456789-_:=,;%/+ .é€\x00"\'\n\t'

    TOKENS = ['%41', '%2F', '%25', '%e2%82%ac', '%', '+', '-', '_', ' ', '\t', '=', ',', ':', ';', '/', '.', 'é', '€', '\U0001f600', 'ß', 'İ', '0', '1', '7f',
              'a', 'Ab', 'x', '0x', 'true', 'None', '\n', '"']

    def rstr(self, no='', only=None, lower=False, minlen=0, maxlen=None):
        r = self.r
        if only is not None:
            al = sorted(only)
            s = ''.join(r.choice(al) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 16, 17, 33])))
        else:
            k = r.random()
            if k < 0.08:
                s = ''
            elif k < 0.3:
                s = r.choice(pool()[0])
            elif k < 0.4:
                s = r.choice(pool()[0]) + ''.join(r.choice(self.ALPHA) for _ in range(r.randint(0, 4)))
            elif k < 0.5:
                s = format(self.rint(0, None), r.choice(['x', 'd', 'X']))
            elif k < 0.58:
                s = ':'.join(format(self.rint(0, 1 << 64), 'x') for _ in range(r.randint(3, 5)))
                if r.random() < 0.3:
                    j = r.choice([0, len(s), r.randint(0, len(s))])
                    s = s[:j] + r.choice(self.TOKENS) * r.choice([1, 1, 2]) + s[j:]
            elif k < 0.68:
                s = ''.join(r.choice(self.TOKENS) for _ in range(r.randint(1, 5)))
            elif k < 0.75:
                s = ''.join(r.choice('abcxyz019') for _ in range(r.randint(1, 6)))
            else:
                s = ''.join(r.choice(self.ALPHA) for _ in range(r.randint(0, 12)))
            if r.random() < 0.15:
                s = s.upper()
        if lower:
            s = s.lower()
        s = ''.join(c for c in s if c not in no)
        while len(s) < minlen:
            s += r.choice(sorted(only) if only is not None else 'abc019')
        if maxlen is not None:
            s = s[:maxlen]
        return s

    def bytes(self, name, minlen=0):
        n = self._name(name)

        def gen():
            r = self.r
            b = r.choice([b'', b'\xff', b'abc', b'\x00', 'é'.encode(), bytes(r.getrandbits(8) for _ in range(r.randint(0, 40)))])
            return b + b'\x01' * max(0, minlen - len(b))
        return self.src.take(n, gen, lambda v: isinstance(v, bytes))

    def hexstr(self, name, n=None):
        nm = self._name(name)

        def gen():
            v = n if n is not None else self.rint(0, None)
            s = format(v, self.r.choice(['x', 'x', 'X']))
            return s.zfill(self.r.choice([0, 1, 16, 20, 32]))

        def ok(v):
            return v != '' and all(c in '0123456789abcdefABCDEF' for c in v) and (n is None or int(v, 16) == n)
        return self.src.take(nm, gen, ok)

    def choose(self, name, options):
        n = self._name(name)
        i = self.src.take(n, lambda: self.r.randrange(len(options)), lambda v: isinstance(v, int) and 0 <= v < len(options))
        return _opt(options[i])

    def any(self, name, alts):
        return self.choose(name, list(alts))

    def value(self, name, kinds=('none', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'tuple', 'dict', 'obj')):
        mk = dict(kinds_of(self, name))
        n = self._name(name)
        i = self.src.take(n, lambda: self.r.randrange(len(kinds)), lambda v: isinstance(v, int) and 0 <= v < len(kinds))
        return mk[kinds[i]]()

    def opaque(self, label='object', cls=object):
        class Thing(object):
            def __repr__(self):
                return '<%s>' % label
        return Thing()

    def plain(self, v):
        return v

    def sub(self, v):
        return core.OwnInt(v) if isinstance(v, int) else core.OwnFloat(v) if isinstance(v, float) else core.OwnStr(v)

    def traceback(self):
        def f(n):
            return 1 // 0 if n == 0 else f(n - 1)

        def g(n):
            return 1 // 0 if n == 0 else h(n - 1)

        def h(n):
            return g(n)
        try:
            self.r.choice([f, g])(self.r.choice([0, 1, 2, 40, 200]))
        except ZeroDivisionError as e:
            return e.__traceback__

    def tb_text(self, tb):
        import traceback
        return ''.join(traceback.format_tb(tb))

    def dict(self, name, key=None, val=None, entries=(), ok=None, rest=True, cls=dict):
        n = self._name(name)
        items = None
        if n in self.src.given:
            g = self.src.given[n]
            try:
                items = [(k, v) for k, v in g if not any(k == e[0] for e in entries)]
                if ok is not None:
                    items = [(k, v) for k, v in items if _native_ok(ok, k)]
            except Exception:
                items = None
        if items is None:
            items = []
            if rest and key is not None:
                for _ in range(self.r.choice([0, 0, 1, 1, 2, 3, 5])):
                    k = key()
                    if (ok is None or _native_ok(ok, k)) and not any(k == e[0] for e in entries):
                        items.append((k, val()))
        try:
            if all(_lit(k) and _lit(v) for k, v in items):
                self.src.log[n] = list(items)
        except Exception:
            pass
        allv = list(entries) + items
        o = self._name(n + ' order')
        seed = self.src.take(o, lambda: self.r.randrange(1000), lambda v: isinstance(v, int))
        _random.Random(seed).shuffle(allv)
        d = cls()
        for k, v in allv:
            d[k] = v
        return d

    def newdict(self, entries=()):
        return dict(entries)

    def list(self, name, elem, minlen=0):
        n = self._name(name)
        c = self.src.take('len ' + n, lambda: minlen + self.r.choice([0, 1, 2, 3, 5]), lambda v: isinstance(v, int) and v >= minlen and v < 2000)
        return [elem() for _ in range(c)]

    def seg(self, name, elem):
        n = self._name(name)
        c = self.src.take('len ' + n, lambda: self.r.choice([0, 0, 1, 2, 3]), lambda v: isinstance(v, int) and 0 <= v < 2000)
        return ConcSeg([elem() for _ in range(c)])

    def newlist(self, items=()):
        out = []
        for i in items:
            if isinstance(i, ConcSeg):
                out.extend(i.items)
            else:
                out.append(i)
        return out

    def packed(self, name, make, pack):
        n = self._name('number of ' + name)
        q = ConcPacked()
        q.n = self.src.take(n, lambda: self.r.choice([0, 0, 1, 1, 2, 3, self.r.randrange(12)]), lambda v: isinstance(v, int) and 0 <= v < 2000)
        # as from a dict: no two records with the same first field
        taken, items = self.__dict__.setdefault('_packed', set()), []
        for _ in range(q.n):
            t = make()
            if t[0] not in taken:
                items.append(t)
            taken.add(t[0])
        q.n = len(items)
        q.data = b''.join(bytes(pack(*t)) for t in items)
        return q

    def cut_loops(self, total, at):
        pass

    def joined(self, sep, items):
        return sep.join(self.newlist(items))

    def bytearray(self, b=b''):
        return bytearray(b)

    # ---- state
    def set_time(self, v):
        self.clock.fixed = v

    def readings(self):
        return list(self.clock.readings)

    def draws(self):
        return list(self._draws)

    def environ(self, entries):
        for k in list(os.environ):
            if k.startswith('JAEGER'):
                del os.environ[k]
        for k, v in entries:
            os.environ[k] = v

    def interest(self, *ks):
        pass

    def candidate(self, thunk):
        pass

    def fields(self, o):
        return []

    def class_candidate(self, cls, fn):
        pass

    def unlocked(self, o):
        return not any(v.locked() for v in vars(o).values() if isinstance(v, sched.SchedLock))

    def future(self, value=None, exc=None):
        f = asyncio.Future()
        if exc is not None:
            f.set_exception(exc('failed'))
            f.exception()
        else:
            f.set_result(value)
        return f

    def pending(self):
        return asyncio.Future()

    def settle(self):
        for _ in range(5):
            asyncio.get_event_loop().run_until_complete(asyncio.sleep(0))

    def futures(self):
        return []

    def item_source(self, start, make):
        return ConcItems(start, make)

    def held(self, l, src, number):
        return [number(x) for x in l] == list(range(src.start(), src.taken))

    def numbered(self, l, src, number, lo, hi):
        return [number(x) for x in l] == list(range(lo, hi))

    def raise_(self, cls, *args):
        raise cls(*args)

    def json_loads(self, thunk):
        self._json = thunk

    def hook(self, name, fn):
        self._hooks[name] = fn

    def setfield(self, obj, name, v):
        setattr(obj, name, v)

    def replace(self, owner, name, v):
        self._put(owner, name, v)

    def invariant(self, obj, fn):
        pass

    # ---- running real code
    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except (CheckFailed, Skip):
            raise
        except Exception as e:
            return Outcome(exc=e)

    def run(self, fn, *a, **k):
        r = self.call(fn, *a, **k)
        if not r.ok:
            self.fail('no exception from %s' % _fname(fn), exc_text(r.exc))
        return r.value

    new = run

    def threads(self, fns):
        """run these concurrently, interleaved at every bytecode of the real code (schedules drawn at random)"""
        import jaeger_client
        sched.run(self.r, fns, os.path.dirname(jaeger_client.__file__))

    def attr(self, obj, name, default=MISSING):
        if default is MISSING:
            return getattr(obj, name)
        return getattr(obj, name, default)

    def fail(self, name, note=''):
        e = CheckFailed(name)
        e.note = note
        raise e

    def check(self, name, cond, note=None):
        self.done_checks.append(name)
        if not cond:
            self.fail(name, note or '')
        return True

    def assume(self, cond):
        if not cond:
            raise Skip()

    def feasible(self):
        pass

    def case(self, cond):
        return bool(cond)

    # ---- spec functions
    def eq(self, a, b):
        return a == b

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        num = (int, float)
        if isinstance(a, bool) or isinstance(b, bool):
            return type(a) is type(b) and a == b
        if isinstance(a, num) and isinstance(b, num):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return str(a) == str(b)
        return type(a) is type(b) and a == b

    def same_list(self, l, items):
        return isinstance(l, (list, tuple)) and len(l) == len(items) and all(self.same(x, y) for x, y in zip(l, items))

    def some(self, l, pred):
        return any(pred(x) for x in l)

    def every(self, l, pred):
        return all(pred(x) for x in l)

    def in_order(self, l, preds):
        j = 0
        for x in l:
            if j < len(preds) and pred_true(preds[j](x)):
                j += 1
        return j == len(preds)

    def parts(self, l):
        return list(l)

    def grown(self, old, l):
        l = list(l)
        if len(l) < len(old) or any(a is not b for a, b in zip(old, l)):
            return None
        return l[len(old):]

    def is_(self, a, b):
        return a is b

    def isinstance(self, o, cls):
        return isinstance(o, cls)

    def len(self, v):
        return len(v)

    def str_of(self, v):
        return str(v)

    def items(self, l):
        return list(l)

    def lookup(self, d, k):
        return d[k] if k in d else MISSING

    def has(self, d, k):
        return k in d

    def snap(self, o):
        if isinstance(o, dict):
            return dict(o)
        if isinstance(o, list):
            return list(o)
        if isinstance(o, bytearray):
            return bytes(o)
        return dict(o.__dict__)

    def same_at(self, d1, d2, k):
        if (k in d1) != (k in d2):
            return False
        return k not in d1 or self.same(d1[k], d2[k])

    def same_dict(self, d1, d2, at):
        return dict(d1) == dict(d2)

    def unchanged_fields(self, o, snap, except_=()):
        fs = set(o.__dict__) | set(snap)
        return all(f in except_ or (f in o.__dict__ and f in snap and (o.__dict__[f] is snap[f] or self.same(o.__dict__[f], snap[f])))
                   for f in fs)

    def ishex(self, s):
        try:
            int(s, 16)
            return True
        except ValueError:
            return False

    def hexval(self, s):
        return int(s, 16)

    def split(self, s, sep):
        return s.split(sep)

    def approx(self, a, b, tol=1e-9):
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

    def blurred(self, a, b):
        return a != b and self.approx(a, b)

    def tail(self, s, n):
        return s[n:]

    def fmt_hex(self, n):
        return format(n, 'x')

    def hexpad(self, n, w):
        return format(n, 'x').zfill(w)

    def bcat(self, *ps):
        return b''.join(bytes(p) for p in ps)

    def u64be(self, v):
        return v.to_bytes(8, 'big')

    def u32be(self, v):
        return v.to_bytes(4, 'big')

    def u8(self, v):
        return v.to_bytes(1, 'big')

    def utf8(self, s):
        return s.encode('utf-8')

    def bstarts(self, b, p):
        return bytes(b).startswith(p)

    def bfind(self, b, piece, after=0):
        return bytes(b).find(piece, after) >= 0

    def query(self, url):
        import urllib.parse
        base, _, q = url.partition('?')
        return base, urllib.parse.parse_qsl(q, keep_blank_values=True)

    def quote(self, s):
        import urllib.parse
        return urllib.parse.quote(s)

    def lower(self, s):
        return s.lower()

    def startswith(self, s, p):
        return s.startswith(p)

    def cut(self, s, n):
        return s[:n]

    def cat(self, *ps):
        return ''.join(ps)

    def int_of(self, v):
        try:
            return int(v)
        except (ValueError, TypeError, OverflowError):
            return None

    def less(self, a, b):
        return a < b

    def div(self, a, b):
        return a // b

    def mod(self, a, b):
        return a % b

    def band(self, a, b):
        return a & b

    def bor(self, a, b):
        return a | b

    def trunc(self, x):
        return int(x)

    def real(self, x):
        return float(x)

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def data(self, b):
        return bytes(b)


class ConcPacked(object):
    """records packed one after another"""


class ConcSeg(object):
    def __init__(self, items):
        self.items = items


def _lit(v):
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return True
    if isinstance(v, (list, tuple)):
        return all(_lit(x) for x in v)
    return False


def _native_ok(ok, k):
    return bool(ok(k))


def pred_true(v):
    return bool(v)


class ConcItems(object):
    def __init__(self, start, make):
        self.start, self.make, self.taken = start, make, 0

    def take(self):
        self.taken += 1
        return self.make(self.taken - 1)


class ConcClock(object):
    def __init__(self, S):
        self.S = S
        self.fixed = None
        self.last = None
        self.readings = []

    def read(self):
        if self.fixed is not None:
            v = self.fixed
        else:
            g = self.S.src.given.get('clock')
            n = len(self.readings)
            if g and n < len(g) and (self.last is None or g[n] >= self.last) and g[n] > 0:
                v = g[n]
            else:
                r = self.S.r
                step = r.choice([0.0, 0.0, 0.125, 1.0, 60.0, r.random(), r.random() * 100])
                v = 1.5e9 if self.last is None else self.last + step
            self.last = v
            self.S.src.log.setdefault('clock', []).append(v)
        self.readings.append(v)
        return v


class RecRandom(_random.Random):
    """random.Random whose draws are chosen (boundary values) and recorded"""
    _S = None

    def getrandbits(self, n):
        S = RecRandom._S
        if S is None:
            return _random.Random.getrandbits(self, n)
        i = len(S._draws)
        g = S.src.given.get('draws') or []
        if i < len(g) and 0 <= g[i][0] < (1 << n):
            v = g[i][0]
        else:
            k = S.r.random()
            v = (1 << n) - 1 if k < 0.15 else 0 if k < 0.2 else (1 << (n - 1)) if k < 0.3 else S.r.getrandbits(n)
        S._draws.append((v, n))
        S.src.log.setdefault('draws', []).append((v, n))
        return v

    def randint(self, a, b):
        S = RecRandom._S
        if S is not None and a == 0 and (b & (b + 1)) == 0 and b > 0:
            return self.getrandbits(b.bit_length())
        return _random.Random.randint(self, a, b)

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        if step == 1:
            return self.randint(a, b - 1)
        return _random.Random.randrange(self, a, b, step)

    def random(self):
        S = RecRandom._S
        if S is None:
            return _random.Random.random(self)
        return S.r.choice([0.0, 0.5, S.r.random(), 1 - 2.0 ** -53])


class RecPeriodic(object):
    """stands in for tornado's PeriodicCallback: remembers whether it runs"""
    def __init__(self, callback, callback_time, jitter=0):
        if callback_time <= 0:
            raise ValueError('Periodic callback must have a positive callback_time')
        self.callback, self.callback_time, self.running = callback, callback_time, False

    def start(self):
        self.running = True

    def stop(self):
        self.running = False

    def is_running(self):
        return self.running


EXTRA_PATCHES = {'PeriodicCallback': RecPeriodic}      # name in jaeger_client modules -> replacement


@contextlib.contextmanager
def patched(S):
    saved = []

    def put(o, n, v):
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)

    def now():
        return S.clock.read()
    real_random = _random.Random
    glob = RecRandom()
    mods = [m for n, m in list(sys.modules.items()) if m is not None and (n == 'jaeger_client' or n.startswith('jaeger_client.'))]
    env = dict(os.environ)
    import json as _json
    real_loads = _json.loads
    fns = {id(_time.time): now, id(_time.monotonic): now, id(_time.perf_counter): now, id(real_random): RecRandom,
           id(_random.getrandbits): glob.getrandbits, id(_random.random): glob.random, id(_random.randint): glob.randint,
           id(_random.randrange): glob.randrange, id(_random.SystemRandom): RecRandom}

    def loads(s, *a, **k):
        if S._json is not None:
            return S._json(s)
        return real_loads(s, *a, **k)
    fns[id(real_loads)] = loads
    import logging
    logging.disable(logging.CRITICAL)
    put(threading, 'Lock', sched.SchedLock)
    put(threading, 'RLock', sched.SchedRLock)
    fns[id(sched.REAL_LOCK)] = sched.SchedLock
    fns[id(sched.REAL_RLOCK)] = sched.SchedRLock
    try:
        for m in mods:
            for n, v in list(vars(m).items()):
                if id(v) in fns and callable(v):
                    put(m, n, fns[id(v)])
                elif n in EXTRA_PATCHES:
                    put(m, n, EXTRA_PATCHES[n])
        put(_time, 'time', now)
        put(_random, 'Random', RecRandom)
        for n in ('getrandbits', 'random', 'randint', 'randrange'):
            put(_random, n, getattr(glob, n))
        put(_json, 'loads', loads)
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        put(socket, 'gethostname', lambda: 'host')
        put(socket, 'gethostbyname', lambda name: '10.0.0.1')
        RecRandom._S = S
        S._put = put
        yield
    finally:
        loop.close()
        asyncio.set_event_loop(None)
        RecRandom._S = None
        for o, n, v in reversed(saved):
            setattr(o, n, v)
        logging.disable(logging.NOTSET)
        os.environ.clear()
        os.environ.update(env)


_CPU, _WALL = _time.process_time, _time.monotonic


def run_concrete(u, source, limit_s=5.0):
    """-> None (held), ('skip',) or ('fail', obligation, note)"""
    assert core.cur() is None
    S = ConcS(source)

    cpu0, wall0 = _CPU(), _WALL()

    def on_alarm(sig, frame):
        # computing for that long, or waiting for much longer: a busy machine alone is no reason
        if _CPU() - cpu0 < limit_s * 0.8 and _WALL() - wall0 < limit_s * 10:
            signal.setitimer(signal.ITIMER_REAL, limit_s / 2)
            return
        raise Timeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit_s)
    try:
        try:
            with patched(S):
                u.fn(S)
            return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    except Skip:
        return ('skip',)
    except CheckFailed as e:
        return ('fail', e.name, getattr(e, 'note', ''))
    except Timeout:
        return ('fail', 'terminates', 'no end within %s s' % limit_s)
    except Exception as e:    # noqa: B902
        if os.environ.get('PYVC_DEBUG'):
            _traceback.print_exc()
        return ('fail', 'no exception escapes', '%s: %s at %s' % (type(e).__name__, e, _traceback.format_exc().strip().splitlines()[-3].strip()))


def search_concrete(u, seed, runs, budget_s, given=None):
    """-> (number run, skipped, failure or None); failure = dict(obligation, note, inputs)"""
    t0 = _real_time()
    n = sk = 0
    reached = set()
    for i in range(runs):
        if _real_time() - t0 > budget_s:
            break
        src = Source('%s/%s/%d' % (seed, u.name, i), given)
        r = run_concrete(u, src)
        n += 1
        if r is None:
            continue
        if r[0] == 'skip':
            sk += 1
            continue
        return n, sk, {'obligation': r[1], 'note': r[2], 'inputs': src.log, 'seed': '%s/%s/%d' % (seed, u.name, i)}
    return n, sk, None
