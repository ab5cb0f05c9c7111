"""pyvc core: symbolic values, the path context and the solver interface.

The verifier executes the abstract syntax tree of the real functions (see interp.py) over
the values defined here.  A path is identified by its list of decisions; the explorer re-executes the
unit for every decision list (no state copying).  Every obligation is `path condition => claim`, decided by z3
(cvc5 as second opinion on `unknown`).
"""
import fractions
import itertools
import operator
import os
import subprocess
import tempfile
import threading
import time

import z3

StrS = z3.DeclareSort('Str')
BytesS = z3.DeclareSort('Byt')
AnyS = z3.DeclareSort('Any')


# ------------------------------------------------------------------ control flow of the engine
class Control(BaseException):
    pass


class PathDone(Control):
    """the path is finished (infeasible, or a loop step was shown inductive)"""


class Restart(Control):
    """a loop abstraction was weakened: re-explore from this decision prefix"""
    def __init__(self, prefix, phase=0):
        self.prefix = prefix
        self.phase = phase      # number of the loop phase on its path


class Suspend(Control):
    """a coroutine waits for a future that has not completed; what it does afterwards is not followed"""


class Unsupported(Control):
    def __init__(self, msg):
        self.msg = msg
        BaseException.__init__(self, msg)

    def __str__(self):
        return self.msg


class PyRaise(Exception):
    """a Python exception raised by the code under verification"""
    def __init__(self, exc):
        self.exc = exc

    @property
    def cls(self):
        return exc_class(self.exc)

    def __str__(self):
        return 'PyRaise(%s)' % (self.cls.__name__,)


def exc_class(e):
    return e.cls if isinstance(e, VObj) else type(e)


_ctx = None


def cur():
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


# ------------------------------------------------------------------ values
def _fast_z3():
    """no error polling after the z3 calls that cannot fail"""
    from z3 import z3core
    for n in dir(z3core):
        if n.startswith('Z3_') and (n.endswith('_inc_ref') or n.endswith('_dec_ref') or n in (
                'Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_get_sort_kind', 'Z3_is_eq_ast', 'Z3_get_ast_kind', 'Z3_get_ast_id',
                'Z3_is_finite_set_sort', 'Z3_get_ast_hash', 'Z3_is_app', 'Z3_sort_to_ast', 'Z3_app_to_ast', 'Z3_func_decl_to_ast')):
            f = getattr(z3core, n)
            for d in (f.__defaults__ or ()):
                if isinstance(d, z3core.Elementaries):
                    d.Check = lambda ctx: None


try:
    _fast_z3()
except Exception:   # another z3 layout: slower, not wrong
    pass


class Sym(object):
    __slots__ = ()


def is_sym(v):
    return isinstance(v, Sym)


class SBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _ctx.branch(self.t)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    def __and__(self, o):
        return binop('&', self, o)

    def __or__(self, o):
        return binop('|', self, o)

    __hash__ = object.__hash__

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SNum(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, self.t)

    def __bool__(self):
        return _ctx.branch(self.t != 0)

    __hash__ = object.__hash__

    def __index__(self):
        raise Unsupported('symbolic integer used where a concrete one is needed')


def _mk(op):
    def f(self, o):
        return binop(op, self, o)

    def r(self, o):
        return binop(op, o, self)
    return f, r


for _n, _o in dict(add='+', sub='-', mul='*', floordiv='//', mod='%', truediv='/', lshift='<<',
                   rshift='>>', xor='^', pow='**').items():
    _f, _r = _mk(_o)
    setattr(SNum, '__%s__' % _n, _f)
    setattr(SNum, '__r%s__' % _n, _r)
SNum.__and__, SNum.__rand__ = _mk('&')
SNum.__or__, SNum.__ror__ = _mk('|')
for _n, _o in dict(lt='<', le='<=', gt='>', ge='>=').items():
    setattr(SNum, '__%s__' % _n, (lambda _o: lambda self, o: compare(_o, self, o))(_o))
SNum.__eq__ = lambda self, o: eq(self, o)
SNum.__ne__ = lambda self, o: neg(eq(self, o))
SNum.__neg__ = lambda self: binop('-', 0, self)
SNum.__invert__ = lambda self: unop('~', self)


class SInt(SNum):
    __slots__ = ()


class SReal(SNum):
    __slots__ = ()


SInt.__hash__ = object.__hash__
SReal.__hash__ = object.__hash__


# values of a class derived from int or float (the class adds nothing)
class OwnInt(int):
    pass


class OwnFloat(float):
    pass


class OwnStr(str):
    pass


class SubInt(SInt):
    __slots__ = ()
    pycls = OwnInt
    __hash__ = object.__hash__


class SubReal(SReal):
    __slots__ = ()
    pycls = OwnFloat
    __hash__ = object.__hash__


def mk_bool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def mk_int(t):
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mk_real(t):
    return SReal(t)


def fold_int(t):
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    return SInt(t)


def fold_bool(t):
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(t)


def bterm(v):
    """z3 Bool of a boolean-like harness value"""
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise Unsupported('boolean expected, got %r' % (v,))


def neg(v):
    if isinstance(v, bool):
        return not v
    return fold_bool(z3.Not(v.t))


def b_and(*vs):
    ts = []
    for v in vs:
        if v is False:
            return False
        if v is True:
            continue
        ts.append(bterm(v))
    if not ts:
        return True
    return fold_bool(z3.And(*ts)) if len(ts) > 1 else SBool(ts[0])


def b_or(*vs):
    ts = []
    for v in vs:
        if v is True:
            return True
        if v is False:
            continue
        ts.append(bterm(v))
    if not ts:
        return False
    return fold_bool(z3.Or(*ts)) if len(ts) > 1 else SBool(ts[0])


def realval(f):
    return z3.RealVal(fractions.Fraction(f))


def int_term(v):
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('integer expected, got %r' % (v,))


def real_term(v):
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float in arithmetic')
        return realval(v)
    return z3.ToReal(int_term(v))


def is_intish(v):
    return isinstance(v, (bool, int, SInt, SBool))


def is_realish(v):
    return isinstance(v, (float, SReal))


def is_numeric(v):
    return is_intish(v) or is_realish(v)


# ------------------------------------------------------------------ strings
slen = z3.Function('slen', StrS, z3.IntSort())
sid = z3.Function('sid', StrS, z3.IntSort())        # literal identity (makes literals distinct)
slower = z3.Function('slower', StrS, StrS)
hexs = z3.Function('hexs', z3.IntSort(), StrS)
hexpad = z3.Function('hexpad', z3.IntSort(), z3.IntSort(), StrS)
decs = z3.Function('decs', z3.IntSort(), StrS)
ishex = z3.Function('ishex', StrS, z3.BoolSort())
hexval = z3.Function('hexval', StrS, z3.IntSort())
isdec = z3.Function('isdec', StrS, z3.BoolSort())
decval = z3.Function('decval', StrS, z3.IntSort())
isflt = z3.Function('isflt', StrS, z3.BoolSort())
fltval = z3.Function('fltval', StrS, z3.RealSort())
ssub = z3.Function('ssub', StrS, z3.IntSort(), z3.IntSort(), StrS)
sconcat = z3.Function('sconcat', StrS, StrS, StrS)
squote = z3.Function('squote', StrS, StrS)
sunquote = z3.Function('sunquote', StrS, StrS)
scontains = z3.Function('scontains', StrS, StrS, z3.BoolSort())
sstarts = z3.Function('sstarts', StrS, StrS, z3.BoolSort())
sends = z3.Function('sends', StrS, StrS, z3.BoolSort())
snparts = z3.Function('snparts', StrS, StrS, z3.IntSort())
spart = z3.Function('spart', StrS, StrS, z3.IntSort(), StrS)
ublen = z3.Function('ublen', StrS, z3.IntSort())    # length of the utf-8 encoding
encodable = z3.Function('encodable', StrS, z3.BoolSort())   # no lone surrogates
strof = z3.Function('strof', AnyS, StrS)

QUOTE_CHARS = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~%')


class Atom(object):
    """one symbolic piece of a string; meta holds facts fixed at creation"""
    __slots__ = ('t', 'meta', 'age')

    def __init__(self, t, meta=None):
        self.t = t
        self.age = len(_ctx.objects) if _ctx is not None else 0
        self.meta = meta if meta is not None else {}

    def __repr__(self):
        return '<%s>' % self.t

    def excludes(self, s):
        """True if no character of s can occur in the atom"""
        m = self.meta
        if 'hexof' in m:
            return all(c not in '0123456789abcdef' for c in s)
        if 'decof' in m:
            return all(c not in '-0123456789' for c in s)
        if 'quoteof' in m:
            return all(c not in QUOTE_CHARS and c not in m['safe'] for c in s)
        if 'only' in m:
            return all(c not in m['only'] for c in s)
        if 'no' in m:
            return all(c in m['no'] for c in s)
        return False


class SStr(Sym):
    """a rope of literal pieces and atoms (at least one atom)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'SStr%r' % (self.parts,)

    __hash__ = object.__hash__

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    def __bool__(self):
        return truth(self)

    def __add__(self, o):
        return binop('+', self, o)

    def __radd__(self, o):
        return binop('+', o, self)

    def __getitem__(self, i):
        from . import models
        return models.getitem(self, i)

    def lower(self):
        return str_lower(self)

    def startswith(self, p):
        return str_startswith(self, p)


class SubStr(SStr):
    __slots__ = ()
    pycls = OwnStr
    __hash__ = object.__hash__


def mk_str(parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str):
                if q == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + q
                    continue
            out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


def is_str(v):
    return isinstance(v, (str, SStr))


def lit(s):
    return _ctx.lit(s)


def sparts(v):
    return v.parts if isinstance(v, SStr) else ((v,) if v else ())


def sterm(v):
    """z3 term of a string value"""
    if isinstance(v, str):
        return lit(v)
    ps = v.parts
    if len(ps) == 1:
        return ps[0].t
    ctx = _ctx
    t = None
    for p in reversed(ps):
        pt = lit(p) if isinstance(p, str) else p.t
        t = pt if t is None else sconcat(pt, t)
    if ctx.memo_once(('sterm', t.get_id()), t):
        ctx.add(slen(t) == int_term(str_len(v)))
        if isinstance(ps[0], Atom):
            ctx.add(sstarts(t, ps[0].t))
        ctx.register_str(t, v)
        low = str_lower(v)
        ctx.add(slower(t) == (t if low.parts == ps else sterm(low)))
    return t


def str_len(v):
    if isinstance(v, str):
        return len(v)
    n = 0
    ts = []
    for p in v.parts:
        if isinstance(p, str):
            n += len(p)
        else:
            _ctx.know_len(p)
            ts.append(slen(p.t))
    return SInt(z3.Sum([z3.IntVal(n)] + ts) if n or len(ts) > 1 else ts[0])


def _strip_common(a, b):
    """remove provably common prefix/suffix; returns None if provably different"""
    a, b = list(a), list(b)

    def step(a, b, end):
        i = -1 if end else 0
        x, y = a[i], b[i]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if end:
                if x[-n:] != y[-n:]:
                    return None
                nx, ny = x[:-n], y[:-n]
            else:
                if x[:n] != y[:n]:
                    return None
                nx, ny = x[n:], y[n:]
            for l, r in ((a, nx), (b, ny)):
                if r:
                    l[i] = r
                else:
                    l.pop(i)
            return True
        if isinstance(x, Atom) and isinstance(y, Atom) and x.t.eq(y.t):
            a.pop(i)
            b.pop(i)
            return True
        return False
    for end in (False, True):
        while a and b:
            r = step(a, b, end)
            if r is None:
                return None
            if not r:
                break
    return a, b


def str_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    r = _strip_common(sparts(a), sparts(b))
    if r is None:
        return False
    x, y = r
    if not x and not y:
        return True
    if any(isinstance(p, Atom) and 'cased' in p.meta for p in x + y) and str_eq(str_lower(mk_str(x)), str_lower(mk_str(y))) is False:
        return False
    if not x or not y:
        rest = x or y
        if any(isinstance(p, str) for p in rest):
            return False
        out = []
        for p in rest:
            _ctx.know_len(p)
            if 'hexof' in p.meta or 'decof' in p.meta:
                return False
            out.append(p.t == lit(''))
        return fold_bool(z3.And(*out)) if len(out) > 1 else SBool(out[0])
    # a separator-structured comparison: hex ':' hex ':' ... with equal shapes
    if len(x) == 1 and len(y) == 1 and isinstance(x[0], Atom) and isinstance(y[0], Atom):
        return atom_eq(x[0], y[0])
    for u, v in ((x, y), (y, x)):
        if len(u) == 1 and isinstance(u[0], str) and len(v) == 1:
            return atom_eq_lit(v[0], u[0])
    # literal against a longer rope: characters that cannot match
    for u, v in ((x, y), (y, x)):
        if all(isinstance(p, str) for p in u):
            w = ''.join(u)
            if sum(len(p) for p in v if isinstance(p, str)) > len(w):
                return False
    if len(x) == len(y) and all(type(p) is type(q) for p, q in zip(x, y)) and \
            _separated(x) and _separated(y) and \
            all(p == q for p, q in zip(x, y) if isinstance(p, str)):
        return b_and(*[atom_eq(p, q) for p, q in zip(x, y) if isinstance(p, Atom)])
    return SBool(sterm(mk_str(x)) == sterm(mk_str(y)))


def _separated(ps):
    """atoms are separated by literals none of whose characters can occur in the atoms"""
    prev_atom = False
    for p in ps:
        if isinstance(p, Atom):
            if prev_atom:
                return False
            prev_atom = True
        else:
            prev_atom = False
            if not all(q.excludes(p) for q in ps if isinstance(q, Atom)):
                return False
    return True


def atom_eq(a, b):
    if a.t.eq(b.t):
        return True
    if 'hexof' in a.meta and 'hexof' in b.meta and a.meta.get('pad') is None and b.meta.get('pad') is None:
        return fold_bool(a.meta['hexof'] == b.meta['hexof'])
    if 'quoteof' in a.meta and 'quoteof' in b.meta and a.meta['safe'] == b.meta['safe']:
        return str_eq(a.meta['quoteof'], b.meta['quoteof'])
    return fold_bool(a.t == b.t)


def atom_eq_lit(a, s):
    if 'hexof' in a.meta and a.meta.get('pad') is None:
        try:
            n = int(s, 16)
        except ValueError:
            return False
        if format(n, 'x') != s:
            return False
        return fold_bool(a.meta['hexof'] == n)
    if 'decof' in a.meta:
        try:
            n = int(s)
        except ValueError:
            return False
        if str(n) != s:
            return False
        return fold_bool(a.meta['decof'] == n)
    for c in set(s):
        if a.excludes(c):
            return False
    if 'minlen' in a.meta and len(s) < a.meta['minlen']:
        return False
    return fold_bool(a.t == lit(s))


def str_lower(v):
    if isinstance(v, str):
        return v.lower()
    out = []
    for p in v.parts:
        if isinstance(p, str):
            out.append(p.lower())
        elif 'cased' in p.meta:
            out.append(p.meta['cased'])
        elif p.meta.get('lower') or 'hexof' in p.meta or 'decof' in p.meta:
            out.append(p)
        else:
            t = slower(p.t)
            ctx = _ctx
            if ctx.memo_once(('slower', t.get_id()), t):
                ctx.add(slower(t) == t)
                ctx.know_len(p)
                ctx.add(slen(t) == slen(p.t))       # ASCII assumption
                ctx.lowered.append((p.t, t))
                for s, l in list(ctx.lits.items()):
                    ctx.add(z3.Implies(p.t == l, t == ctx.lit(s.lower())))
            meta = {'lower': True}
            if 'no' in p.meta:
                meta['no'] = frozenset(c for c in p.meta['no'] if not c.isalpha())
            out.append(Atom(t, meta))
    return mk_str(out)


def str_startswith(v, p):
    if isinstance(p, tuple):
        return b_or(*[str_startswith(v, q) for q in p])
    if isinstance(v, str) and isinstance(p, str):
        return v.startswith(p)
    r = _strip_prefix(sparts(v), sparts(p))
    if r is None:
        return False
    a, b = r
    if not b:
        return True
    if len(b) == 1 and isinstance(b[0], str):
        if not a:
            return False
        if isinstance(a[0], Atom):
            for c in b[0]:
                if a[0].excludes(c) and len(a) == 1:
                    return False
            if a[0].excludes(b[0][0]) and 'minlen' in a[0].meta:
                return False
        vt = sterm(mk_str(a))
        return _ctx.starts(vt, b[0], mk_str(a))
    if not a:
        # v exhausted, p still has atoms: p's rest must be empty
        return str_eq('', mk_str(b))
    return SBool(sstarts(sterm(mk_str(a)), sterm(mk_str(b))))


def _strip_prefix(a, b):
    a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return None
            for l, r in ((a, x[n:]), (b, y[n:])):
                if r:
                    l[0] = r
                else:
                    l.pop(0)
            continue
        if isinstance(x, Atom) and isinstance(y, Atom) and x.t.eq(y.t):
            a.pop(0)
            b.pop(0)
            continue
        break
    return a, b


def hex_atom(n):
    """SStr for format(n,'x') with n >= 0"""
    ctx = _ctx
    t = hexs(n)
    if ctx.memo_once(('hexs', t.get_id()), t):
        ctx.add(ishex(t), hexval(t) == n, slen(t) >= 1, t != lit(''))
        ctx.hexnums.append((n, t))
    return Atom(t, {'hexof': n, 'lower': True, 'minlen': 1})


def fmt_hex(v):
    if isinstance(v, int):
        return format(v, 'x')
    n = int_term(v)
    if _ctx.branch(n >= 0):
        return SStr((hex_atom(n),))
    return mk_str(['-', SStr((hex_atom(-n),))])


def fmt_dec(v):
    if isinstance(v, int):
        return str(v)
    n = int_term(v)
    t = decs(n)
    ctx = _ctx
    if ctx.memo_once(('decs', t.get_id()), t):
        ctx.add(isdec(t), decval(t) == n, slen(t) >= 1)
    return SStr((Atom(t, {'decof': n, 'minlen': 1}),))


def zfill(v, w):
    if isinstance(v, str):
        return v.zfill(w)
    ps = v.parts
    if len(ps) == 1 and isinstance(ps[0], Atom) and 'hexof' in ps[0].meta:
        a = ps[0]
        n = a.meta['hexof']
        ctx = _ctx
        if a.meta.get('pad') is not None:
            w0 = a.meta['pad']
            w = max(w, w0)
        t = hexpad(n, w)
        if ctx.memo_once(('hexpad', t.get_id()), t):
            h = hexs(n)
            ctx.add(ishex(t), hexval(t) == n, slen(t) >= w, slen(t) >= 1,
                    z3.Implies(n < 16 ** w, slen(t) == w),
                    z3.Implies(n >= 16 ** w, t == h))
        return SStr((Atom(t, {'hexof': n, 'pad': w, 'lower': True, 'minlen': 1}),))
    if isinstance(w, int):
        return _ctx.uf_str('zfill%d' % w, v)
    raise Unsupported('zfill')


def str_sub(v, lo, hi):
    """v[lo:hi] with 0 <= lo (native or symbolic), hi None or value"""
    if isinstance(v, str) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
        return v[lo:hi]
    ps = list(sparts(v))
    lo = lo or 0
    # structural: both bounds fall on concrete offsets inside literals / part boundaries
    if isinstance(lo, int) and lo > 0 and ps and isinstance(ps[0], str):
        if len(ps[0]) >= lo:
            return str_sub(mk_str([ps[0][lo:]] + ps[1:]), 0,
                           None if hi is None else (hi - lo if isinstance(hi, int) else binop('-', hi, lo)))
        if hi is None or isinstance(hi, SInt) or hi >= lo:
            k = len(ps[0])
            return str_sub(mk_str(ps[1:]), lo - k, None if hi is None else binop('-', hi, k))
    if lo == 0 and hi is None:
        return v
    if ps and isinstance(ps[0], Atom) and (hi is None):
        m = ps[0].meta
        if isinstance(lo, int) and 'maxlen' in m and m.get('minlen') == m['maxlen'] and lo >= m['maxlen']:
            return str_sub(mk_str(ps[1:]), lo - m['maxlen'], None)
        if isinstance(lo, SInt) and _ctx.must(lo.t == slen(ps[0].t)):
            return mk_str(ps[1:])
    if isinstance(hi, int) and hi >= 0 and lo == 0 and ps and isinstance(ps[0], str):
        if len(ps[0]) >= hi:
            return ps[0][:hi]
        return mk_str([ps[0], str_sub(mk_str(ps[1:]), 0, hi - len(ps[0]))])
    if isinstance(lo, int) and lo < 0:
        raise Unsupported('negative string index')
    ctx = _ctx
    t0 = sterm(v)
    L = int_term(str_len(v))
    if hi is None:
        h = L
    else:
        h = int_term(hi)
        if not ctx.must(h >= 0):
            if ctx.branch(h < 0):
                h = z3.If(L + h >= 0, L + h, z3.IntVal(0))
    l = int_term(lo)
    t = ssub(t0, l, h)
    if ctx.memo_once(('ssub', t.get_id()), t):
        e = z3.If(h > L, L, h)
        ctx.add(slen(t) == z3.If(e - l > 0, e - l, z3.IntVal(0)))
        ctx.add((slen(t) == 0) == (t == lit('')))
        ctx.add(z3.Implies(z3.And(l <= 0, h >= L), t == t0))
        e2 = ssub(t0, l, e)
        ctx.add(t == e2)
    if hi is None and isinstance(lo, int) and isinstance(v, SStr) and len(v.parts) == 1:
        ctx.know_tail(v.parts[0], lo, t)
    meta = {}
    if isinstance(v, SStr) and len(v.parts) == 1:
        for k in ('lower', 'no', 'only'):
            if k in v.parts[0].meta:
                meta[k] = v.parts[0].meta[k]
        meta['subof'] = (v.parts[0], lo, hi)
    return SStr((Atom(t, meta),))


# ------------------------------------------------------------------ bytes
blen = z3.Function('blen', BytesS, z3.IntSort())
bid = z3.Function('bid', BytesS, z3.IntSort())


class BPart(object):
    __slots__ = ('kind', 'a', 'n', 'x')

    def __init__(self, kind, a, n, x=None):
        self.kind, self.a, self.n, self.x = kind, a, n, x

    def __repr__(self):
        return 'B(%s,%r,%r)' % (self.kind, self.a, self.n)


class Packed(object):
    """any number n of records of bytes, one after another: at(j) is the record number j, pos(j) where it begins"""
    def __init__(self, name, n, make):
        self.name, self.n, self.make = name, n, make
        self.fn = z3.Function('%s position!%d' % (name, next(_ctx.counter)), z3.IntSort(), z3.IntSort())
        self.memo = {}
        self.marks = []
        self.no = len(_ctx.packed)
        _ctx.packed.append(self)
        _ctx.add(self.fn(z3.IntVal(0)) == 0)
        self.mark(z3.IntVal(0))
        self.mark(int_term(n))

    def mark(self, j):
        """j becomes a place at which the bytes may be divided"""
        k = str(z3.simplify(j))
        if all(str(z3.simplify(m)) != k for m in self.marks):
            # positions grow with the number
            for m in self.marks:
                _ctx.add((self.fn(m) < self.fn(j)) == (m < j), (self.fn(m) == self.fn(j)) == (m == j))
            self.marks.append(j)

    def pos(self, j):
        self.mark(j)
        return z3.IntVal(0) if z3.is_int_value(j) and j.as_long() == 0 else self.fn(j)

    def at(self, j):
        j = z3.simplify(j)
        k = str(j)
        if k not in self.memo:
            self.memo[k] = r = self.make()
            self.mark(j)
            self.mark(z3.simplify(j + 1))
            _ctx.add(self.fn(z3.simplify(j + 1)) == self.fn(j) + int_term(blength(r)))
        return self.memo[k]

    def part(self, lo, hi):
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        n = z3.simplify(self.pos(hi) - self.pos(lo))
        return BPart('items', self, n.as_long() if z3.is_int_value(n) else SInt(n), (lo, hi))


def packed_at(p, rem):
    """the records p with one of them in the open, such that the offset rem is in it or at its borders; None if not known which"""
    s, (lo, hi) = p.a, p.x
    base = s.pos(lo)
    for j in [lo] + list(reversed(s.marks)):
        if not _ctx.must(z3.And(lo <= j, j <= hi)):
            continue
        if _ctx.must(s.pos(j) - base == rem):
            return [q for q in (s.part(lo, j), s.part(j, hi)) if not (isinstance(q.n, int) and q.n == 0)]
        if _ctx.must(z3.And(j < hi, s.pos(j) - base <= rem)):
            r = s.at(j)
            if _ctx.must(rem <= s.pos(z3.simplify(j + 1)) - base):
                return list(bparts(mk_bytes([s.part(lo, j), r, s.part(z3.simplify(j + 1), hi)])))
    return None


def no_items(p):
    return not isinstance(p, bytes) and p.kind == 'items' and _ctx.must(p.x[0] == p.x[1])


def packed_rest(v):
    """(records, index of the first one, index after the last, what follows) of bytes that begin with records"""
    ps = bparts(v)
    if ps and not isinstance(ps[0], bytes) and ps[0].kind == 'items':
        return ps[0].a, ps[0].x[0], ps[0].x[1], ps[1:]
    return None


class SBytes(Sym):
    """rope of native bytes and BParts: ('int', term, width, fmt) / ('utf8', SStr, len) / ('raw', term, len)
    / ('seg', id, len)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'SBytes%r' % (self.parts,)

    __hash__ = object.__hash__

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    def __bool__(self):
        return truth(self)

    def __add__(self, o):
        return binop('+', self, o)

    def __getitem__(self, i):
        from . import models
        return models.getitem(self, i)


def bparts(v):
    if isinstance(v, SBytes):
        return v.parts
    if isinstance(v, (bytes, bytearray)):
        return (bytes(v),) if v else ()
    if isinstance(v, VByteArray):
        return bparts(v.b)
    raise Unsupported('bytes expected: %r' % (v,))


def mk_bytes(parts):
    out = []
    for p in parts:
        qs = p.parts if isinstance(p, SBytes) else (p,)
        for q in qs:
            if isinstance(q, bytes):
                if not q:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] += q
                    continue
            elif isinstance(q.n, int) and q.n == 0:
                continue
            out.append(q)
    if not out:
        return b''
    if len(out) == 1 and isinstance(out[0], bytes):
        return out[0]
    return SBytes(tuple(out))


def blength(v):
    n = 0
    ts = []
    for p in bparts(v):
        if isinstance(p, bytes):
            n += len(p)
        elif isinstance(p.n, int):
            n += p.n
        else:
            ts.append(int_term(p.n))
    if not ts:
        return n
    return SInt(z3.Sum([z3.IntVal(n)] + ts) if n or len(ts) > 1 else ts[0])


def raw_bytes(name, minlen=0):
    ctx = _ctx
    t = ctx.const(name, BytesS)
    ctx.add(blen(t) >= minlen)
    return SBytes((BPart('raw', t, SInt(blen(t))),))


def bytes_eq(a, b):
    x, y = list(bparts(a)), list(bparts(b))

    def same(p, q):
        if isinstance(p, bytes) and isinstance(q, bytes):
            return p == q
        if isinstance(p, bytes) or isinstance(q, bytes):
            return None
        if p.kind != q.kind:
            return None
        if p.kind == 'int':
            if p.n == q.n and p.x == q.x:
                return fold_bool(p.a == q.a)
            return None
        if p.kind == 'utf8':
            return str_eq(p.a, q.a)
        if p.kind == 'seg':
            return p.a is q.a or None
        if p.kind == 'items':
            return True if p.a is q.a and _ctx.must(z3.And(p.x[0] == q.x[0], p.x[1] == q.x[1])) else None
        return fold_bool(p.a == q.a)
    # strip what is aligned and comparable from both ends
    out = []
    for e in (0, -1):
        while x and y:
            p, q = x[e], y[e]
            if isinstance(p, bytes) and isinstance(q, bytes):
                n = min(len(p), len(q))
                u, v = (p[:n], q[:n]) if e == 0 else (p[-n:], q[-n:])
                if u != v:
                    return False
                for l, w in ((x, p), (y, q)):
                    rest = w[n:] if e == 0 else w[:-n]
                    if rest:
                        l[e] = rest
                    else:
                        l.pop(e)
                continue
            if isinstance(p, bytes) or isinstance(q, bytes):
                l, w, r = (x, p, q) if isinstance(p, bytes) else (y, q, p)
                if r.kind != 'int' or r.x != '>' or len(w) < r.n:
                    break
                u = w[:r.n] if e == 0 else w[-r.n:]
                c = fold_bool(r.a == int.from_bytes(u, 'big'))
                if c is False:
                    return False
                out.append(c)
                rest = w[r.n:] if e == 0 else w[:-r.n]
                if rest:
                    l[e] = rest
                else:
                    l.pop(e)
                (y if l is x else x).pop(e)
                continue
            r = same(p, q)
            # equal widths, or certainly equal content: the rest is aligned
            if r is None or not (r is True or isinstance(p.n, int) or len(x) == len(y) == 1):
                if r is not None and r is not False and not isinstance(r, bool) and _ctx.must(r.t):
                    r = True
                else:
                    break
            if r is False:
                return False
            out.append(r)
            x.pop(e)
            y.pop(e)
    if not x and not y:
        return b_and(*out)
    x1, y1 = ([p for p in l if isinstance(p, bytes) or isinstance(p.n, int) or not _ctx.must(int_term(p.n) == 0)] for l in (x, y))
    if len(x1) < len(x) or len(y1) < len(y):
        return b_and(*out + [bytes_eq(mk_bytes(x1), mk_bytes(y1))])
    la, lb = blength(mk_bytes(x)), blength(mk_bytes(y))
    if not x or not y:
        return b_and(*out + [fold_bool(int_term(la) == int_term(lb))])
    if isinstance(la, int) and isinstance(lb, int) and la != lb:
        return False
    return b_and(*out + [SBool(z3.And(int_term(la) == int_term(lb), _ctx.fresh('beq', z3.BoolSort())))])


def bytes_split_at(v, off):
    """(v[:off], v[off:]) where off must fall on a part boundary or inside a literal; None if it cannot be decided"""
    ctx = _ctx
    ps = list(bparts(v))
    left = []
    rem = off
    while True:
        if isinstance(rem, int) and rem == 0:
            return mk_bytes(left), mk_bytes(ps)
        if not ps:
            if isinstance(rem, int) and rem > 0:
                return mk_bytes(left), b''
            if ctx.must(int_term(rem) >= 0):
                return mk_bytes(left), b''
            return None
        p = ps[0]
        n = len(p) if isinstance(p, bytes) else p.n
        if no_items(p):
            ps.pop(0)
            continue
        if isinstance(rem, int) and isinstance(n, int):
            if n <= rem:
                left.append(ps.pop(0))
                rem -= n
                continue
            if isinstance(p, bytes):
                left.append(p[:rem])
                ps[0] = p[rem:]
                return mk_bytes(left), mk_bytes(ps)
            return None
        d = z3.simplify(int_term(rem) - int_term(n))
        if z3.is_int_value(d):
            if d.as_long() >= 0:
                left.append(ps.pop(0))
                rem = d.as_long()
                continue
        elif ctx.must(int_term(rem) == 0):
            rem = 0
            continue
        elif ctx.must(d >= 0):
            left.append(ps.pop(0))
            rem = SInt(d)
            continue
        if not isinstance(p, bytes) and p.kind == 'items':
            qs = packed_at(p, int_term(rem))
            if qs is not None and not (len(qs) == 1 and qs[0].x == p.x):
                ps[0:1] = qs
                continue
        return None


# ------------------------------------------------------------------ heap objects
class Heap(object):
    """anything with identity and mutable state; births number the allocations of a path"""


class VObj(Heap):
    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = dict(fields or {})
        self.birth = _ctx.register(self)
        self.inv = None

    def __repr__(self):
        return '<VObj %s#%d>' % (self.cls.__name__, self.birth)

    # harness convenience ---------------------------------------------
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return force(_ctx.interp.getattr(self, name))

    def setfield(self, name, v):
        _ctx.note(self, name, self.fields.get(name, UNBOUND))
        self.fields[name] = v


class _Unbound(object):
    def __repr__(self):
        return '<unbound>'


UNBOUND = _Unbound()


class Env(Heap):
    def __init__(self, names, parent, glob, fname='?'):
        self.vars = {}
        self.names = names
        self.parent = parent
        self.glob = glob
        self.fname = fname
        self.birth = _ctx.register(self)

    def set(self, name, v):
        _ctx.note(self, name, self.vars.get(name, UNBOUND))
        if v is UNBOUND:
            self.vars.pop(name, None)
        else:
            self.vars[name] = v


class VFunc(object):
    """closure created by interpreted code"""
    def __init__(self, node, env, module, defaults, kwdefaults, name, defcls=None):
        self.node, self.env, self.module = node, env, module
        self.defaults, self.kwdefaults, self.name, self.defcls = defaults, kwdefaults, name, defcls
        self.birth = _ctx.register(self) if _ctx is not None else None

    def __repr__(self):
        return '<VFunc %s>' % self.name

    def __call__(self, *a, **k):            # harness convenience
        return _ctx.interp.call(self, list(a), k)


class VBound(object):
    def __init__(self, self_, fn, defcls=None):
        self.self_, self.fn, self.defcls = self_, fn, defcls

    def __repr__(self):
        return '<VBound %r>' % (self.fn,)

    def __call__(self, *a, **k):
        return _ctx.interp.call(self, list(a), k)


class BMethod(object):
    """method of a builtin value"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __call__(self, *a, **k):
        return _ctx.interp.call(self, list(a), k)


class VByteArray(Heap):
    def __init__(self, b=b''):
        self.b = b
        self.birth = _ctx.register(self)

    def setb(self, b):
        _ctx.note(self, 'b', self.b)
        self.b = b


class Seg(object):
    """unknown number of list elements"""
    refined = None
    seen = ()           # (index, element)

    def __init__(self, count, gen):
        self.count, self.gen = count, gen

    def __repr__(self):
        return 'Seg(%s)' % (self.count,)

    def at(self, i, new=False):
        """element i (within bounds); new: looked at by a loop, for the first time"""
        ctx = _ctx
        if self.refined is not None:
            a, b = self.refined
            if isinstance(a, Seg):
                return a.at(i, new) if ctx.branch(int_term(i) < int_term(a.count)) else b
            return a if ctx.branch(int_term(i) == 0) else b.at(fold_int(int_term(i) - 1), new)
        for o, v in self.seen:
            if not new and ctx.branch(o == int_term(i)):
                return v
        b0 = len(ctx.objects)
        v = self.some_at(i)
        ctx.late.append((None, None, v, (b0, len(ctx.objects), ctx.wstamp)))
        self.seen = self.seen + ((int_term(i), v),)
        return v

    def some_at(self, i):
        return self.gen()

    def take(self, first=True):
        """make the first (last) element definite in every list that shares this segment; the count is >= 1"""
        n1 = fold_int(int_term(self.count) - 1)
        v = self.at(0 if first else n1)
        s = Seg(n1, self.gen)
        s.shapes = getattr(self, 'shapes', None)
        s.seen = tuple((o - 1 if first else o, x) for o, x in self.seen if x is not v)
        self.refined = [v, s] if first else [s, v]
        return v


def expand(parts):
    while any(isinstance(p, Seg) and p.refined is not None for p in parts):
        out = []
        for p in parts:
            if isinstance(p, Seg) and p.refined is not None:
                out.extend(p.refined)
            else:
                out.append(p)
        parts = out
    return parts


class VList(Heap):
    def __init__(self, parts=(), is_tuple=False):
        self._parts = list(parts)
        self.is_tuple = is_tuple
        self.birth = _ctx.register(self)

    @property
    def parts(self):
        ps = self._parts
        for p in ps:
            if isinstance(p, Seg) and p.refined is not None:
                self._parts = ps = expand(ps)
                break
        return ps

    @parts.setter
    def parts(self, v):
        self._parts = v

    def __repr__(self):
        return 'VList%r' % (self.parts,)

    def setparts(self, ps):
        _ctx.note(self, 'parts', list(self.parts))
        self.parts = list(ps)

    def append(self, v):
        self.setparts(self.parts + [v])

    def concrete(self):
        return not any(isinstance(p, Seg) for p in self.parts)

    def length(self):
        n = sum(1 for p in self.parts if not isinstance(p, Seg))
        ts = [int_term(p.count) for p in self.parts if isinstance(p, Seg)]
        if not ts:
            return n
        return fold_int(z3.Sum([z3.IntVal(n)] + ts))

    def __getitem__(self, i):
        from . import models
        return models.getitem(self, i)

    def __iter__(self):
        if not self.concrete():
            raise Unsupported('iterating a symbolic list in a harness')
        return iter(list(self.parts))

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    __hash__ = object.__hash__

    def __bool__(self):
        return truth(self)


class LazySeq(object):
    """immutable sequence of symbolic length (result of str.split): n, elem(i)"""
    made = None                     # (separator, maxsplit) of the split it is the result of

    def __init__(self, n, elem, made=None):
        self.n, self.elem = n, elem
        if made is not None:
            self.made = made

    def __getitem__(self, i):
        from . import models
        return models.getitem(self, i)


class VAny(object):
    """a value whose kind is decided lazily by a nondeterministic choice"""
    def __init__(self, name, alts):
        self.name = name
        self.alts = alts            # list of (label, thunk)
        self.val = None
        self.done = False
        self.unb = False            # may be UNBOUND (locals in loops only)
        self.born = None
        self.made = None            # place in the order of births
        if _ctx is not None:
            self.made = _ctx.register(None)
            _ctx.vanys[self.made] = self

    def __repr__(self):
        return '<any %s %s>' % (self.name, [a for a, _ in self.alts])

    def get(self):
        if not self.done:
            i = _ctx.choose(len(self.alts), 'kind ' + self.name) if len(self.alts) > 1 else 0
            b0 = len(_ctx.objects)
            self.val = force(self.alts[i][1]())
            self.done = True
            self.born = (b0, len(_ctx.objects), _ctx.wstamp)
            if self.born[1] > b0 and self.made is not None:
                _ctx.forced.append(self)
            _ctx.resolved.append((self.name, self.alts[i][0]))
        return self.val

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _ctx.interp.getattr(self, name)

    def __getitem__(self, i):
        from . import models
        return models.getitem(self.get(), i)

    def __call__(self, *a, **k):
        return _ctx.interp.call(self.get(), list(a), k)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    __hash__ = object.__hash__

    def __bool__(self):
        return truth(self)


def force(v):
    while isinstance(v, VAny):
        v = v.get()
    return v


class ModelObj(Heap):
    """native model/stub object whose attribute writes are watched; stateless: no attribute is written after its creation"""
    stateless = False

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        if _ctx is not None:
            object.__setattr__(o, 'birth', _ctx.register(o))
        return o

    def __setattr__(self, n, v):
        if _ctx is not None:
            _ctx.note(self, n, self.__dict__.get(n, UNBOUND))
        object.__setattr__(self, n, v)

    def setfield(self, n, v):
        if v is UNBOUND:
            self.__delattr__(n)
        else:
            setattr(self, n, v)

    @property
    def fields(self):
        return self.__dict__


class Dead(ModelObj):
    """value left over from a loop iteration that must not be used afterwards"""
    def __init__(self, what):
        object.__setattr__(self, 'what', what)

    def __getattribute__(self, n):
        if n in ('birth', '__class__', '__dict__', 'what', 'use'):
            return object.__getattribute__(self, n)
        self.use()

    def use(self):
        raise Unsupported('use of a value left over from a loop')


class Opaque(ModelObj):
    """an object about which nothing is known but its identity and class"""
    def __init__(self, label, cls=object, **attrs):
        object.__setattr__(self, 'label', label)
        object.__setattr__(self, 'pycls', cls)
        object.__setattr__(self, 'term', _ctx.fresh('obj_' + label, AnyS) if _ctx else None)
        for k, v in attrs.items():
            object.__setattr__(self, k, v)

    def __repr__(self):
        return '<opaque %s>' % self.label


class ItemSource(ModelObj):
    """where numbered items come from, one after the other; of those taken, the first start() have been dealt with"""
    def __init__(self, start):
        object.__setattr__(self, 'start', start)
        object.__setattr__(self, 'taken', 0)

    def take(self):
        v = Item(self, self.taken)
        self.taken = binop('+', self.taken, 1)
        return v


class Item(ModelObj):
    def __init__(self, src, no):
        object.__setattr__(self, 'src', src)
        object.__setattr__(self, 'no', no)


class ItemSeg(Seg):
    """unknown number of items with consecutive numbers from base"""
    def __init__(self, src, base, count):
        self.src, self.base = src, base
        Seg.__init__(self, count, self.some)
        self.shapes = frozenset([('item', src.birth)])

    def some(self):
        j = _ctx.fresh('j', z3.IntSort())
        _ctx.add(j >= 0, j < int_term(self.count))
        return Item(self.src, fold_int(int_term(self.base) + j))

    def some_at(self, i):
        return Item(self.src, fold_int(int_term(self.base) + int_term(i)))

    def take(self, first=True):
        n1 = fold_int(int_term(self.count) - 1)
        if first:
            v, s = Item(self.src, self.base), ItemSeg(self.src, fold_int(int_term(self.base) + 1), n1)
            self.refined = [v, s]
        else:
            v, s = Item(self.src, fold_int(int_term(self.base) + int_term(n1))), ItemSeg(self.src, self.base, n1)
            self.refined = [s, v]
        return v


def is_held(parts, src):
    """the list is exactly the items taken of the source and not yet dealt with, in order"""
    return is_numbered(parts, src, src.start(), src.taken)


def is_numbered(parts, src, lo, hi):
    """the list is exactly the items numbered lo..hi-1, in order"""
    at = int_term(lo)
    for p in expand(parts):
        if not isinstance(p, (Item, ItemSeg)) or p.src is not src:
            if isinstance(p, Seg) and _ctx.must(int_term(p.count) == 0):
                continue
            return False
        if isinstance(p, ItemSeg) and _ctx.must(int_term(p.count) == 0):
            continue
        if not _ctx.must(int_term(p.no if isinstance(p, Item) else p.base) == at):
            return False
        at = at + (1 if isinstance(p, Item) else int_term(p.count))
    return _ctx.must(at == int_term(hi))


def held_items(parts):
    """the source of which the list is exactly the items taken and not yet dealt with, in order; else None"""
    ps = expand(parts)
    return ps[0].src if ps and isinstance(ps[0], (Item, ItemSeg)) and is_held(ps, ps[0].src) else None


# ------------------------------------------------------------------ dictionaries
class BaseMap(object):
    """unknown content shared by a dictionary and its copies"""
    def __init__(self, name, mk_key, mk_val, ok=None, rest=True):
        ctx = _ctx
        self.name = name
        self.mk_key, self.mk_val, self.ok = mk_key, mk_val, ok
        self.entries = []       # definite [(key, val)]
        self.absent = []
        self.shared = False
        self.m = None           # number of remaining unknown entries
        if rest:
            self.m = ctx.fresh('n_' + name, z3.IntSort())
            ctx.add(self.m >= 0)

    def _pop_one(self):
        ctx = _ctx
        m2 = ctx.fresh('n_' + self.name, z3.IntSort())
        ctx.add(m2 >= 0, self.m == m2 + 1)
        self.m = m2

    def lookup(self, q):
        ctx = _ctx
        for k, v in self.entries:
            if truth(eq(q, k)):
                return True, v
        if self.m is None:
            return False, None
        for k in self.absent:
            if truth(eq(q, k)):
                return False, None
        if self.ok is not None:
            c = self.ok(q)
            if c is False or (c is not True and not ctx.may(bterm(c))):
                self.absent.append(q)
                return False, None
        else:
            c = True
        if not ctx.may(self.m >= 1):
            return False, None
        if ctx.choose(2, 'has ' + self.name) == 0:
            if c is not True:
                ctx.assume(bterm(c))
            self._pop_one()
            v = self.mk_val(q)
            self.entries.append((q, v))
            ctx.materialised.append((self.name, q, v))
            return True, v
        self.absent.append(q)
        return False, None

    def fresh_entry(self):
        """an arbitrary further entry"""
        ctx = _ctx
        k = self.mk_key()
        for k2, _ in self.entries:
            ctx.assume(bterm(neg(eq(k, k2))))
        for k2 in self.absent:
            ctx.assume(bterm(neg(eq(k, k2))))
        if self.ok is not None:
            c = self.ok(k)
            if c is not True:
                ctx.assume(bterm(c))
        self._pop_one()
        ctx.assume_feasible()
        v = self.mk_val(k)
        self.entries.append((k, v))
        ctx.materialised.append((self.name, k, v))
        return k, v


class Layer(object):
    """effect of an unbounded loop phase on a dictionary"""
    def __init__(self, kept, mk_val, can_set, can_del):
        self.kept, self.mk_val, self.can_set, self.can_del = kept, mk_val, can_set, can_del
        self.memo = []
        self.size = None


def _same_key(a, b):
    return a is b or isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and eq(a, b) is True


def unhashable(q):
    from .interp import DictView
    q = force(q)
    if isinstance(q, tuple):
        return any(unhashable(x) for x in q)
    if isinstance(q, VList):
        return not q.is_tuple or any(unhashable(x) for x in q.parts if not isinstance(x, Seg))
    if isinstance(q, VDict):
        return q.cls is not frozenset
    if isinstance(q, VObj):
        if issubclass(q.cls, tuple):
            return any(unhashable(x) for x in q.fields.values())
        return q.cls.__hash__ is None
    return isinstance(q, (VByteArray, list, dict, set, bytearray)) or isinstance(q, DictView) and q.kind != 'values'


class VDict(Heap):
    def __init__(self, base=None, ops=(), cls=dict):
        self.base = base
        self.ops = list(ops)
        self.cls = cls
        self.default_factory = None
        self.birth = _ctx.register(self)
        self.is_set = False

    def __repr__(self):
        return 'VDict(%r,%r)' % (self.base and self.base.entries, self.ops)

    def note(self):
        _ctx.note(self, 'ops', list(self.ops))

    def copy_of(self):
        d = VDict(self.base, self.ops, self.cls)
        if self.base is not None:
            self.base.shared = True
        return d

    def frozen(self):
        """what it is now, for looking only"""
        d = VDict.__new__(VDict)
        d.__dict__.update(self.__dict__)
        d.ops = list(self.ops)
        return d

    def lookup(self, q):
        ctx = _ctx
        if unhashable(q):
            ctx.raise_py(TypeError, 'unhashable type')
        for op in reversed(self.ops):
            if op[0] == 'set':
                if truth(eq(q, op[1])):
                    return True, op[2]
            elif op[0] == 'del':
                if truth(eq(q, op[1])):
                    return False, None
            elif op[0] == 'clear':
                return False, None
            else:
                L = op[1]
                skip = False
                for k in L.kept:
                    if truth(eq(q, k)):
                        skip = True
                        break
                if skip:
                    continue
                for k, st, v in L.memo:
                    if truth(eq(q, k)):
                        if st == 'set':
                            return True, v
                        if st == 'del':
                            return False, None
                        skip = True
                        break
                if skip:
                    continue
                alts = ['same'] + (['set'] if L.can_set else []) + (['del'] if L.can_del else [])
                st = alts[ctx.choose(len(alts), 'layer')] if len(alts) > 1 else alts[0]
                b0 = len(ctx.objects)
                v = L.mk_val(q) if st == 'set' else None
                L.memo.append((q, st, v))
                ctx.late.append((self, q, v, (b0, len(ctx.objects), ctx.wstamp)))
                if st == 'set':
                    return True, v
                if st == 'del':
                    return False, None
        if self.base is not None:
            n0, b0 = len(ctx.materialised), len(ctx.objects)
            r = self.base.lookup(q)
            if len(ctx.materialised) > n0:
                ctx.late.append((self, q, r[1], (b0, len(ctx.objects), ctx.wstamp)))
            return r
        return False, None

    def simple(self):
        return self.base is None and all(op[0] in ('set', 'del', 'clear') for op in self.ops)

    def entries(self):
        """definite entries of a fully known dict, in insertion order"""
        out = []
        for op in self.ops:
            if op[0] == 'clear':
                out = []
            elif op[0] == 'set':
                for i, (k, v) in enumerate(out):
                    if truth(eq(k, op[1])):
                        out[i] = (k, op[2])
                        break
                else:
                    out.append((op[1], op[2]))
            else:
                out = [(k, v) for k, v in out if not truth(eq(k, op[1]))]
        return out

    def set(self, q, v):
        if unhashable(q):
            _ctx.raise_py(TypeError, 'unhashable type')
        self.note()
        if self.ops and self.ops[-1][0] == 'set' and eq(self.ops[-1][1], q) is True:
            self.ops[-1] = ('set', self.ops[-1][1], v)
            return
        self.ops.append(('set', q, v))

    def delete(self, q):
        self.note()
        self.ops.append(('del', q))

    def length(self):
        if self.simple():
            return len(self.entries())
        n = 0
        seen = []
        lay = None
        for i, op in enumerate(self.ops):
            if op[0] in ('layer', 'clear'):
                lay = i
        if lay is not None:
            op = self.ops[lay]
            if op[0] == 'clear':
                size = z3.IntVal(0)
            else:
                if op[1].size is None:
                    op[1].size = _ctx.fresh('dsize', z3.IntSort())
                    _ctx.add(op[1].size >= 0)
                size = op[1].size
                if any(st == 'set' for _, st, _ in op[1].memo) or any(self._stays(lay, k) for k in op[1].kept):
                    _ctx.add(size >= 1)
        elif self.base is not None:
            size = z3.IntVal(len(self.base.entries))
            if self.base.m is not None:
                size = size + self.base.m
        else:
            size = z3.IntVal(0)
        start = (lay + 1) if lay is not None else 0
        pre = VDict.__new__(VDict)
        pre.base, pre.cls, pre.birth = self.base, self.cls, -1
        pre.ops = list(self.ops[:start])
        for op in self.ops[start:]:
            had, _ = VDict.lookup(pre, op[1])
            if lay is None and self.base is not None and self.base.m is not None and not any(
                    o[0] == 'set' for o in pre.ops):
                size = z3.IntVal(len(self.base.entries)) + self.base.m
            if op[0] == 'set' and not had:
                n += 1
            elif op[0] == 'del' and had:
                n -= 1
            pre.ops.append(op)
        if lay is None and self.base is not None:
            size = z3.IntVal(len(self.base.entries)) + (self.base.m if self.base.m is not None else 0)
        return fold_int(size + n)

    def _stays(self, lay, k):
        """key k (kept by the layer at index lay) is certainly present just before it"""
        for op in reversed(self.ops[:lay]):
            if op[0] == 'set':
                if _same_key(op[1], k):
                    return True
            elif op[0] == 'layer':
                if not any(_same_key(k, q) for q in op[1].kept):
                    return any(st == 'set' and _same_key(q, k) for q, st, _ in op[1].memo)
            else:
                return False
        return self.base is not None and any(_same_key(k, q) for q, _ in self.base.entries)

    # harness convenience
    def __getitem__(self, k):
        from . import models
        return models.getitem(self, k)

    def __contains__(self, k):
        return self.lookup(k)[0]

    def get(self, k, d=None):
        f, v = self.lookup(k)
        return v if f else d

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    __hash__ = object.__hash__

    def __bool__(self):
        return truth(self)


# ------------------------------------------------------------------ generic operations
def truth(v):
    """native bool of a value, branching if needed"""
    v = force(v)
    if isinstance(v, Dead):
        v.use()
    if isinstance(v, bool):
        return v
    if isinstance(v, SBool):
        return _ctx.branch(v.t)
    if isinstance(v, SNum):
        return _ctx.branch(v.t != 0)
    if isinstance(v, SStr):
        if any(isinstance(p, str) for p in v.parts):
            return True
        for p in v.parts:
            if 'minlen' in p.meta and p.meta['minlen'] >= 1:
                return True
        ts = []
        for p in v.parts:
            _ctx.know_len(p)
            ts.append(p.t != lit(''))
        return _ctx.branch(z3.Or(*ts) if len(ts) > 1 else ts[0])
    if isinstance(v, SBytes):
        n = blength(v)
        return n != 0 if isinstance(n, int) else _ctx.branch(n.t != 0)
    if isinstance(v, VByteArray):
        return truth(v.b)
    if isinstance(v, VList):
        n = v.length()
        return n != 0 if isinstance(n, int) else _ctx.branch(n.t != 0)
    if isinstance(v, LazySeq):
        return truth(v.n)
    if isinstance(v, VDict):
        n = v.length()
        return n != 0 if isinstance(n, int) else _ctx.branch(n.t != 0)
    if isinstance(v, VObj):
        return _ctx.interp.truth_obj(v)
    if isinstance(v, (Opaque, ModelObj, VFunc, VBound, BMethod)):
        b = getattr(v, 'sym_truth', None)
        if b is not None:
            return truth(b)
        return True
    return bool(v)


def _eq_view(a, b):
    """a view of a dictionary or a range against something"""
    from .models import pytype
    for u, v in ((a, b), (b, a)):
        t, w = pytype(u), pytype(v)
        if type(u).__name__ == 'RangeV' and w is not range and w.__eq__ in (object.__eq__, int.__eq__, str.__eq__, tuple.__eq__, list.__eq__, dict.__eq__):
            return False
        if type(u).__name__ == 'DictView' and (u.kind == 'values' or eq_kind(v) not in ('set', None)) and type(v).__module__ != 'pyvc.models':
            return False
    raise Unsupported('comparison with a view or range')


def eq_kind(v):
    """values of different kinds are never equal"""
    if v is None:
        return 'none'
    if is_numeric(v):
        return 'number'
    if is_str(v):
        return 'str'
    if isinstance(v, (bytes, bytearray, SBytes, VByteArray)):
        return 'bytes'
    if isinstance(v, tuple) or isinstance(v, VList) and v.is_tuple:
        return 'tuple'
    if isinstance(v, (list, VList)):
        return 'list'
    if isinstance(v, (set, frozenset)) or isinstance(v, VDict) and v.is_set:
        return 'set'
    if isinstance(v, (dict, VDict)):
        return 'dict'
    if type(v).__name__ in ('DictView', 'RangeV', 'CharSeq'):
        return None
    return 'identity' if type(v).__eq__ is object.__eq__ else None


def eq(a, b):
    a, b = force(a), force(b)
    if isinstance(a, Dead) or isinstance(b, Dead):
        (a if isinstance(a, Dead) else b).use()
    if a is b and not isinstance(a, float):
        return True
    if is_numeric(a) and is_numeric(b):
        if not is_sym(a) and not is_sym(b):
            return a == b
        if is_realish(a) or is_realish(b):
            for u in (a, b):
                if isinstance(u, float) and (u != u or u in (float('inf'), float('-inf'))):
                    return False
            return fold_bool(real_term(a) == real_term(b))
        if isinstance(a, SBool) and isinstance(b, SBool):
            return fold_bool(a.t == b.t)
        for u, v in ((a, b), (b, a)):
            if isinstance(u, SBool) and isinstance(v, bool):
                return u if v else neg(u)
        return fold_bool(int_term(a) == int_term(b))
    if is_str(a) and is_str(b):
        return str_eq(a, b)
    if isinstance(a, (bytes, bytearray, SBytes, VByteArray)) and isinstance(b, (bytes, bytearray, SBytes, VByteArray)):
        return bytes_eq(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return b_and(*[eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (VList, list)) and isinstance(b, (VList, list)):
        pa = a.parts if isinstance(a, VList) else a
        pb = b.parts if isinstance(b, VList) else b
        if getattr(a, 'is_tuple', False) != getattr(b, 'is_tuple', False):
            return False
        if any(isinstance(p, Seg) for p in list(pa) + list(pb)):
            for x, y in ((a, pb), (b, pa)):
                if not y:
                    return eq(x.length(), 0)
            if len(pa) == len(pb) and all(p is q or (not isinstance(p, Seg) and not isinstance(q, Seg)) for p, q in zip(pa, pb)):
                return b_and(*[eq(p, q) for p, q in zip(pa, pb) if not isinstance(p, Seg)])
            raise Unsupported('comparison of symbolic lists')
        if len(pa) != len(pb):
            return False
        return b_and(*[eq(x, y) for x, y in zip(pa, pb)])
    if isinstance(a, VObj) or isinstance(b, VObj):
        return _ctx.interp.eq_obj(a, b)
    if isinstance(a, VDict) and isinstance(b, VDict):
        if a.is_set != b.is_set:
            return False
        if a.simple() and b.simple():
            ea, eb = a.entries(), b.entries()
            if len(ea) != len(eb):
                return False
            out = []
            for k, v in ea:
                f, w = b.lookup(k)
                if not f:
                    return False
                out.append(eq(v, w))
            return b_and(*out)
        raise Unsupported('comparison of symbolic dictionaries')
    if isinstance(a, VDict) and isinstance(b, (dict, set, frozenset)) or isinstance(b, VDict) and isinstance(a, (dict, set, frozenset)):
        d, n = (a, b) if isinstance(a, VDict) else (b, a)
        return eq(d, _ctx.wrap(set(n) if isinstance(n, frozenset) else n))
    if isinstance(a, (Sym, Heap, LazySeq)) or isinstance(b, (Sym, Heap, LazySeq)):
        if isinstance(a, LazySeq) or isinstance(b, LazySeq):
            raise Unsupported('comparison of lazy sequences')
        for u, v in ((a, b), (b, a)):
            if isinstance(u, VList) and u.is_tuple and isinstance(v, tuple):
                w = VList(list(v))
                w.is_tuple = True
                return eq(u, w)
        ka, kb = eq_kind(a), eq_kind(b)
        if ka is None or kb is None or ka == kb != 'identity':
            raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
        return False
    if isinstance(a, VBound) and isinstance(b, VBound):
        return a.self_ is b.self_ and a.fn is b.fn
    if type(a).__name__ in ('DictView', 'RangeV', 'CharSeq') or type(b).__name__ in ('DictView', 'RangeV', 'CharSeq'):
        return _eq_view(a, b)
    try:
        return bool(a == b)
    except Exception:
        return a is b


def same(a, b):
    """identity (the `is` operator)"""
    a, b = force(a), force(b)
    if a is b:
        return True
    if isinstance(a, SBool) and isinstance(b, bool):
        return a if b else neg(a)
    if isinstance(b, SBool) and isinstance(a, bool):
        return b if a else neg(b)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return eq(a, b)
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return False
    if isinstance(a, VBound) and isinstance(b, VBound):
        return False
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        raise Unsupported('identity of strings')
    if is_numeric(a) and is_numeric(b):
        raise Unsupported('identity of numbers')
    return False


def compare(op, a, b):
    a, b = force(a), force(b)
    if op == '==':
        return eq(a, b)
    if op == '!=':
        return neg(eq(a, b))
    if is_numeric(a) and is_numeric(b):
        if not is_sym(a) and not is_sym(b):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if is_realish(a) or is_realish(b):
            for u, o in ((a, '<'), (b, '>')):
                if isinstance(u, float) and u != u:
                    return False
                if isinstance(u, float) and u in (float('inf'), float('-inf')):
                    big = u > 0
                    # compare as +/- infinity
                    if u is a:
                        return {'<': not big, '<=': not big, '>': big, '>=': big}[op]
                    return {'<': big, '<=': big, '>': not big, '>=': not big}[op]
            x, y = real_term(a), real_term(b)
        else:
            x, y = int_term(a), int_term(b)
        return fold_bool({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
    if isinstance(a, str) and isinstance(b, str) or isinstance(a, bytes) and isinstance(b, bytes):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if truth(eq(x, y)):
                continue
            return compare(op, x, y)
        return {'<': len(a) < len(b), '<=': len(a) <= len(b), '>': len(a) > len(b), '>=': len(a) >= len(b)}[op]
    if is_str(a) and is_str(b):
        f = z3.Function('slt', StrS, StrS, z3.BoolSort())
        x, y = sterm(a), sterm(b)
        _ctx.ordered(f, x, a)
        _ctx.ordered(f, y, b)
        t = {'<': f(x, y), '>': f(y, x), '<=': z3.Not(f(y, x)), '>=': z3.Not(f(x, y))}[op]
        return SBool(t)
    from . import models
    if any(isinstance(x, (VObj, VList, VDict, LazySeq, list, dict, set, frozenset)) or type(x).__module__.startswith('pyvc') for x in (a, b)) and \
            not isinstance(a, Opaque) and not isinstance(b, Opaque):
        ka, kb = eq_kind(a), eq_kind(b)
        if ka == kb or any(getattr(models.pytype(x), d) is not getattr(object, d) and k in (None, 'identity')
                           for x, k in ((a, ka), (b, kb)) for d in ('__lt__', '__le__', '__gt__', '__ge__')):
            raise Unsupported('%s of %s and %s' % (op, models.pytype(a).__name__, models.pytype(b).__name__))
    elif models.concrete(a) and models.concrete(b):
        try:
            return {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op](a, b)
        except Exception as e:
            raise PyRaise(e)
    _ctx.raise_py(TypeError, "'%s' not supported between these operands" % op)


def unop(op, a):
    a = force(a)
    if op == 'not':
        if isinstance(a, bool):
            return not a
        if isinstance(a, SBool):
            return neg(a)
        return not truth(a)
    if op == '-':
        if is_numeric(a):
            return binop('-', 0, a) if is_sym(a) else -a
    if op == '+':
        if is_numeric(a):
            return a
    if op == '~':
        if isinstance(a, (int, bool)):
            return ~a
        if is_intish(a):
            return fold_int(-int_term(a) - 1)
    from . import models
    models.refuse(a, 'bad operand type for unary ' + op + ": '%s'", {'-': '__neg__', '+': '__pos__', '~': '__invert__'}[op])


def _and_const(x, m):
    """x & m for integer term x and native m (two's complement semantics)"""
    if m < 0:
        return x - _and_const(x, ~m)
    if m == 0:
        return z3.IntVal(0)
    # contiguous runs of ones
    out = None
    pos = 0
    while m >> pos:
        while not (m >> pos) & 1:
            pos += 1
        start = pos
        while (m >> pos) & 1:
            pos += 1
        width = pos - start
        q = x if start == 0 else x / z3.IntVal(1 << start)
        part = (q % z3.IntVal(1 << width)) * z3.IntVal(1 << start) if start else q % z3.IntVal(1 << width)
        out = part if out is None else out + part
    return out


bor = z3.Function('bor', z3.IntSort(), z3.IntSort(), z3.IntSort())
band = z3.Function('band', z3.IntSort(), z3.IntSort(), z3.IntSort())
bxor = z3.Function('bxor', z3.IntSort(), z3.IntSort(), z3.IntSort())


def binop(op, a, b):
    a, b = force(a), force(b)
    ctx = _ctx
    if is_numeric(a) and is_numeric(b):
        if not is_sym(a) and not is_sym(b):
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '//': lambda: a // b,
                        '%': lambda: a % b, '/': lambda: a / b, '<<': lambda: a << b, '>>': lambda: a >> b,
                        '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '**': lambda: a ** b}[op]()
            except Exception as e:
                raise PyRaise(e)
        if op in ('&', '|', '^') and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            x, y = bterm(a), bterm(b)
            return fold_bool({'&': z3.And(x, y), '|': z3.Or(x, y), '^': z3.Xor(x, y)}[op])
        if op == '/' or is_realish(a) or is_realish(b):
            if op in ('&', '|', '^', '<<', '>>'):
                ctx.raise_py(TypeError, 'unsupported operand type(s) for %s' % op)
            for u in (a, b):
                if isinstance(u, float) and (u != u or u in (float('inf'), float('-inf'))):
                    raise Unsupported('non-finite float in arithmetic')
            x, y = real_term(a), real_term(b)
            if op == '+':
                return SReal(x + y)
            if op == '-':
                return SReal(x - y)
            if op == '*':
                return SReal(x * y)
            if op == '/':
                if ctx.branch(y == 0):
                    ctx.raise_py(ZeroDivisionError, 'division by zero')
                return SReal(x / y)
            raise Unsupported('float operator ' + op)
        x, y = int_term(a), int_term(b)
        if op == '+':
            return fold_int(x + y)
        if op == '-':
            return fold_int(x - y)
        if op == '*':
            return fold_int(x * y)
        if op in ('//', '%'):
            if ctx.branch(y == 0):
                ctx.raise_py(ZeroDivisionError, 'integer division or modulo by zero')
            if not ctx.must(y > 0):
                raise Unsupported('division by a possibly negative integer')
            return fold_int(x / y if op == '//' else x % y)
        if op in ('<<', '>>'):
            if not isinstance(b, int):
                raise Unsupported('symbolic shift')
            if b < 0:
                ctx.raise_py(ValueError, 'negative shift count')
            k = z3.IntVal(1 << b)
            return fold_int(x * k if op == '<<' else x / k)
        if op == '&':
            if isinstance(b, int):
                return fold_int(_and_const(x, int(b)))
            if isinstance(a, int):
                return fold_int(_and_const(y, int(a)))
            return SInt(_band(x, y))
        if op == '|':
            if isinstance(b, int):
                return fold_int(x + z3.IntVal(int(b)) - _and_const(x, int(b)))
            if isinstance(a, int):
                return fold_int(y + z3.IntVal(int(a)) - _and_const(y, int(a)))
            for u, v in ((x, y), (y, x)):
                for k in (64, 32, 8, 16):
                    if ctx.must(z3.And(u % (1 << k) == 0, v >= 0, v < (1 << k))):
                        return SInt(u + v)
            t = bor(x, y)
            ctx.add(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(t >= x, t >= y, t <= x + y)),
                    z3.Implies(x == 0, t == y), z3.Implies(y == 0, t == x), z3.Implies(x == y, t == x),
                    t == x + y - _band(x, y))
            for k in (1, 2, 4, 8):
                ctx.add(_bit(t, k) == z3.If(z3.Or(_bit(x, k) == 1, _bit(y, k) == 1), z3.IntVal(1), z3.IntVal(0)))
            return SInt(t)
        if op == '^':
            if isinstance(b, int):
                m = z3.IntVal(int(b))
                return fold_int(x + m - 2 * _and_const(x, int(b)))
            if isinstance(a, int):
                return fold_int(y + z3.IntVal(int(a)) - 2 * _and_const(y, int(a)))
            return SInt(x + y - 2 * _band(x, y))
        if op == '**' and isinstance(b, int) and 0 <= b <= 4:
            t = z3.IntVal(1)
            for _ in range(b):
                t = t * x
            return fold_int(t)
        if op == '**' and isinstance(a, int) and a == 2:
            raise Unsupported('symbolic exponent')
        raise Unsupported('integer operator ' + op)
    from . import models
    return models.binop_other(op, a, b)


def _bit(x, k):
    return (x / z3.IntVal(k)) % 2 if k > 1 else x % 2


def _band(x, y):
    ctx = _ctx
    t = band(x, y)
    if ctx.memo_once(('band', t.get_id()), t):
        ctx.add(band(y, x) == t)
        ctx.add(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(t >= 0, t <= x, t <= y)))
        for k in (1, 2, 4, 8):
            ctx.add(_bit(t, k) == z3.If(z3.And(_bit(x, k) == 1, _bit(y, k) == 1), z3.IntVal(1), z3.IntVal(0)))
    return t


# ------------------------------------------------------------------ solver statistics
LITS = {}


def lit_facts(s):
    """(constant, facts, lower-case form to be declared as well) of a literal; the same in every path"""
    t = z3.Const('lit:' + repr(s)[:60] + '#%d' % len(LITS), StrS)
    LITS[s] = (t, [], None)
    facts = [sid(t) == len(LITS), slen(t) == len(s)]
    try:
        facts += [ishex(t), hexval(t) == int(s, 16)]
    except ValueError:
        facts.append(z3.Not(ishex(t)))
    try:
        facts += [isdec(t), decval(t) == int(s)]
    except ValueError:
        facts.append(z3.Not(isdec(t)))
    try:
        f = float(s)
        facts.append(isflt(t))
        if f == f and f not in (float('inf'), float('-inf')):
            facts.append(fltval(t) == realval(f))
    except ValueError:
        facts.append(z3.Not(isflt(t)))
    low = s.lower()
    if low == s:
        facts.append(slower(t) == t)
        return t, facts, None
    if low not in LITS:
        LITS[low] = lit_facts(low)
    facts.append(slower(t) == LITS[low][0])
    return t, facts, low


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.cvc5 = 0
        self.unknown = 0


STATS = Stats()


def cvc5_check(asserts, timeout_ms):
    """second opinion; returns 'sat'/'unsat'/'unknown'"""
    s = z3.Solver()
    for a in asserts:
        s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--nl-cov', name], capture_output=True, text=True,
                           timeout=timeout_ms / 1000.0 + 5)
        out = r.stdout.strip().splitlines()
        return out[-1] if out and out[-1] in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(name)


LOCKS = (type(threading.Lock()), type(threading.RLock()))


class Ctx(object):
    """one path"""
    FEAS_MS = 4000
    CHECK_MS = 15000

    def __init__(self, explorer, prefix, interp_factory):
        self.explorer = explorer
        self.prefix = list(prefix)
        self.decisions = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.FEAS_MS)
        self.counter = itertools.count()
        self.objects = []
        self.watchers = []
        self.memo = {}
        self.lits = {}
        self.lowered = []
        self.hexnums = []
        self.str_terms = []      # registered (term, value)
        self.prefixes = {}
        self.starts_done = set()
        self.in_order = []       # strings that were compared: (term, value)
        self.inputs = {}
        self.input_order = []
        self.materialised = []
        self.phase_no = 0
        self.vanys = {}         # by place in the order of births
        self.forced = []        # values whose kind was decided, in this order, if that made objects
        self.late = []          # (container, key, value, (first birth, end, stamp)): unknown content made definite by a lookup
        self.whole = {}         # parts of a list -> the dictionary whose items they are
        self.wstamp = 0
        self.wlast = {}
        self.class_cands = {}
        self.resolved = []
        self.interest = []
        self.packed = []            # sequences of records of bytes
        self.splits = []            # (total, cut): a loop of so many rounds is cut at a round
        self.tails = []
        self.cands = []
        self.events = []
        self.assumed_model = None
        self.native_wrap = {}
        self.native_fields = {}
        self.modvars = {}
        self.clock = None
        self.draws = []
        self.hooks = {}
        self.depth = 0
        self.strdefs = {}
        self.lock_hooks = {}
        self.replaying_until = len(prefix)
        set_ctx(self)
        self.interp = interp_factory(self)

    # ---- allocation and watching
    def register(self, o):
        self.objects.append(o)
        return len(self.objects) - 1

    def note(self, obj, slot, old):
        self.wstamp += 1
        if slot != 'held' or not getattr(type(obj), 'is_lock', False):      # loops.store_late looks at locks by themselves
            self.wlast[obj.birth] = self.wstamp
        for w in self.watchers:
            if obj.birth < w.start and (obj.birth, slot) not in w.writes:
                w.writes[(obj.birth, slot)] = (obj, slot, old)

    def fresh(self, name, sort):
        return z3.Const('%s!%d' % (name, next(self.counter)), sort)

    def const(self, name, sort):
        return z3.Const('%s!%d' % (name, next(self.counter)), sort)

    def memo_once(self, key, keep=None):
        if key in self.memo:
            return False
        self.memo[key] = keep
        return True

    # ---- literals and string facts
    def lit(self, s):
        t = self.lits.get(s)
        if t is None:
            g = LITS.get(s)
            if g is None:
                g = LITS[s] = lit_facts(s)
            t = g[0]
            self.lits[s] = t
            self.add(*g[1])
            if g[2] is not None:
                self.lit(g[2])
            for p in self.prefixes:
                self._starts_fact(t, s, p)
        return t

    def register_str(self, t, v):
        if t.get_id() in self.strdefs:
            return
        self.strdefs[t.get_id()] = (t, v)
        for p in self.prefixes:
            self._starts_fact(t, v, p)

    def _starts_fact(self, t, v, p):
        k = (t.get_id(), p)
        if k in self.starts_done:
            return
        self.starts_done.add(k)
        if isinstance(v, str):
            self.add(sstarts(t, self.lit(p)) == z3.BoolVal(v.startswith(p)))
        elif v is not None and isinstance(v, SStr) and len(v.parts) > 1:
            r = _strip_prefix(sparts(v), (p,))
            if r is None:
                self.add(z3.Not(sstarts(t, self.lit(p))))
            elif not r[1]:
                self.add(sstarts(t, self.lit(p)))

    def starts(self, t, p, v):
        """Bool: string term t starts with literal p"""
        if p not in self.prefixes:
            self.prefixes[p] = True
            self.lit(p)
            for s, l in list(self.lits.items()):
                self._starts_fact(l, s, p)
            for t2, v2 in list(self.strdefs.values()):
                self._starts_fact(t2, v2, p)
            for a, n, t2 in list(self.tails):
                self._tail_fact(a, n, t2, p)
        b = sstarts(t, self.lit(p))
        k = ('startlen', t.get_id(), p)
        if self.memo_once(k, t):
            self.add(z3.Implies(b, slen(t) >= len(p)))
            for q in self.prefixes:
                if q != p:
                    bq = sstarts(t, self.lit(q))
                    if q.startswith(p):
                        self.add(z3.Implies(bq, b))
                    elif p.startswith(q):
                        self.add(z3.Implies(b, bq))
                    else:
                        self.add(z3.Not(z3.And(b, bq)))
        self.register_str(t, v)
        return SBool(b)

    def know_tail(self, a, n, t):
        """t is a.t[n:]"""
        if self.memo_once(('tail', t.get_id()), t):
            self.tails.append((a, n, t))
            for p in list(self.prefixes):
                self._tail_fact(a, n, t, p)

    def _tail_fact(self, a, n, t, p):
        if len(p) != n or not p.isascii():
            return
        tail = SStr((Atom(t, {}),))
        self.add(z3.Implies(sstarts(a.t, self.lit(p)), a.t == sterm(mk_str([p, tail]))))
        if p == p.lower() and not a.meta.get('lower'):
            # lower() keeps lengths (ASCII assumption)
            self.add(z3.Implies(sstarts(slower(a.t), self.lit(p)), slower(a.t) == sterm(mk_str([p, str_lower(tail)]))))

    def know_len(self, a):
        if self.memo_once(('len', a.t.get_id()), a.t):
            self.add(slen(a.t) >= a.meta.get('minlen', 0))
            self.add((slen(a.t) == 0) == (a.t == self.lit('')))
            if 'maxlen' in a.meta:
                self.add(slen(a.t) <= a.meta['maxlen'])

    def uf_str(self, name, *args):
        """uninterpreted but deterministic string function of string/int arguments"""
        ts, sorts = [], []
        for a in args:
            if is_str(a):
                ts.append(sterm(a))
            else:
                ts.append(int_term(a))
            sorts.append(ts[-1].sort())
        f = z3.Function('f_' + name, *(sorts + [StrS]))
        return SStr((Atom(f(*ts), {'uf': (name, args)}),))

    def uf_bool(self, name, *args):
        ts, sorts = [], []
        for a in args:
            ts.append(sterm(a) if is_str(a) else int_term(a))
            sorts.append(ts[-1].sort())
        f = z3.Function('p_' + name, *(sorts + [z3.BoolSort()]))
        return SBool(f(*ts))

    def new_str(self, name, no='', only=None, lower=False, minlen=0, maxlen=None):
        t = self.const(name, StrS)
        meta = {}
        if no:
            meta['no'] = frozenset(no)
        if only is not None:
            meta['only'] = frozenset(only)
            if not any(c != c.lower() for c in only):
                lower = True
        if lower:
            meta['lower'] = True
            self.add(slower(t) == t)
        if minlen:
            meta['minlen'] = minlen
        if maxlen is not None:
            meta['maxlen'] = maxlen
        a = Atom(t, meta)
        self.know_len(a)
        return SStr((a,))

    def cased(self, name, low):
        """a string whose lower-case form is the literal low"""
        t = self.const(name, StrS)
        self.add(slower(t) == self.lit(low), slen(t) == len(low))
        a = Atom(t, {'cased': low, 'minlen': len(low), 'maxlen': len(low)})
        self.know_len(a)
        return SStr((a,))

    # ---- logic
    def add(self, *ts):
        self.pc.extend(ts)
        self.solver.add(*ts)

    def ordered(self, f, x, v):
        """the order of strings is strict and total"""
        if any(x.eq(y) for y, _ in self.in_order):
            return
        self.add(z3.Not(f(x, x)))
        old = list(self.in_order)
        for y, w in old:
            self.add((x != y) == z3.Or(f(x, y), f(y, x)), z3.Not(z3.And(f(x, y), f(y, x))))
            if isinstance(v, str) and isinstance(w, str):
                self.add(f(x, y) if v < w else z3.Not(f(x, y)))
        self.in_order.append((x, v))
        for y, _ in old:
            for z, _ in old:
                if not y.eq(z):
                    for p, q, r in ((x, y, z), (y, x, z), (y, z, x)):
                        self.add(z3.Implies(z3.And(f(p, q), f(q, r)), f(p, r)))

    def _check(self, *extra):
        STATS.queries += 1
        t0 = time.time()
        r = self.solver.check(*extra)
        STATS.time += time.time() - t0
        return r

    def may(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return self._check(t) != z3.unsat

    def must(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return self._check(z3.Not(t)) == z3.unsat

    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                raise PathDone()
            return
        if z3.is_false(z3.simplify(t)):
            raise PathDone()
        self.add(t)

    def assume_feasible(self):
        if len(self.decisions) < self.replaying_until:
            return
        if self._check() == z3.unsat:
            raise PathDone()

    def branch(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = ('br', t.get_id())
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            r1 = self._check(t)
            if r1 == z3.unsat:
                self.add(z3.Not(t))
                # forced: recorded so that replays take the same way
                self.decisions.append('F0')
                return False
            r2 = self._check(z3.Not(t))
            if r2 == z3.unsat:
                self.add(t)
                self.decisions.append('F1')
                return True
            d = 1
            self.explorer.pending(self.decisions + [0])
        self.decisions.append(d)
        if d in (1, 'F1'):
            self.add(t)
            return True
        self.add(z3.Not(t))
        return False

    def choose(self, n, label=''):
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 'C0'
            for j in range(n - 1, 0, -1):
                self.explorer.pending(self.decisions + ['C%d' % j])
        self.decisions.append(d)
        return int(d[1:])

    # ---- exceptions raised by models
    def raise_py(self, cls, msg=''):
        raise PyRaise(self.mk_exc(cls, (msg,)))

    def mk_exc(self, cls, args):
        return VObj(cls, {'args': tuple(args)})

    # ---- native containers
    def wrap(self, v):
        """mirror a native mutable container into a watched one (per path)"""
        if isinstance(v, (dict, list, set, bytearray)):
            k = id(v)
            if k in self.native_wrap:
                return self.native_wrap[k][1]
            if isinstance(v, dict):
                d = VDict(cls=type(v))
                d.default_factory = getattr(v, 'default_factory', None)
                self.native_wrap[k] = (v, d)
                for a, b in v.items():
                    d.ops.append(('set', self.wrap(a), self.wrap(b)))
                return d
            if isinstance(v, list):
                l = VList()
                self.native_wrap[k] = (v, l)
                l.parts = [self.wrap(x) for x in v]
                return l
            if isinstance(v, bytearray):
                b = VByteArray(bytes(v))
                self.native_wrap[k] = (v, b)
                return b
            d = VDict(cls=set)
            d.is_set = True
            self.native_wrap[k] = (v, d)
            for a in sorted(v, key=repr):
                d.ops.append(('set', a, True))
            return d
        if isinstance(v, LOCKS):
            if id(v) not in self.native_wrap:
                from . import models
                self.native_wrap[id(v)] = (v, models.VLock() if isinstance(v, LOCKS[0]) else models.VRLock())
            return self.native_wrap[id(v)][1]
        return v

    # ---- obligations
    def prove(self, claim):
        """('proved', None) / ('refuted', model) / ('unknown', reason)"""
        t = bterm(claim)
        s = z3.simplify(t)
        if z3.is_true(s):
            return 'proved', None
        self.solver.set('timeout', self.CHECK_MS)
        try:
            r = self._check(z3.Not(t))
            if r == z3.unsat:
                return 'proved', None
            if r == z3.sat:
                return 'refuted', self.solver.model()
        finally:
            self.solver.set('timeout', self.FEAS_MS)
        # a fresh, non-incremental attempt, then cvc5
        s2 = z3.Solver()
        s2.set('timeout', self.CHECK_MS)
        s2.add(*self.pc)
        s2.add(z3.Not(t))
        STATS.queries += 1
        t0 = time.time()
        r = s2.check()
        STATS.time += time.time() - t0
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return 'refuted', s2.model()
        STATS.cvc5 += 1
        t0 = time.time()
        c = cvc5_check(self.pc + [z3.Not(t)], self.CHECK_MS)
        STATS.time += time.time() - t0
        if c == 'unsat':
            return 'proved', 'cvc5'
        STATS.unknown += 1
        return 'unknown', 'z3 and cvc5 gave no answer'


class Watch(object):
    def __init__(self, start):
        self.start = start
        self.writes = {}
