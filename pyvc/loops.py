"""Unbounded loops.

A loop over an unknown number of elements is cut into phases: the tracked elements are executed
individually, and between them a phase stands for any number of other, arbitrary elements.  For such a phase the
engine keeps an abstraction of the locations the body may change (initially: none).  The phase is verified like a loop
invariant: starting from any state described by the abstraction, one execution of the body on an arbitrary other
element must lead to a state described by the abstraction again; if it does not, the abstraction is weakened and the
phase is explored again.  Only then the code after the phase is explored from an arbitrary state of the abstraction.
"""
import ast
import itertools

import z3

from . import core
from . import live
from .core import (BaseMap, Dead, Env, Heap, Layer, LazySeq, ModelObj, Opaque, PathDone, PyRaise, Restart, SBool, SBytes, SInt, SReal,
                   SStr, Seg, UNBOUND, Unsupported, VAny, VByteArray, VDict, VList, VObj, Watch, b_and, bterm, eq, force,
                   int_term, is_realish, mk_bytes, raw_bytes, real_term, truth)


# ------------------------------------------------------------------ phases of an iterable
def known_number(ctx, n):
    """the small number that n is on this path, if there is one"""
    if isinstance(n, int):
        return n
    t = int_term(n)
    if ctx.must(t <= 8):
        for k in range(9):
            if ctx.must(t == k):
                return k
    return None


def phases(I, it, site):
    from .interp import DictView, EnumV, FilterV, GenV, IterV, MapV, RangeV, ZipV
    ctx = I.ctx
    it = force(it)
    if isinstance(it, IterV):
        if any(isinstance(p, Seg) for p in it.items):
            if it.used or any(it.birth < w.start for w in ctx.watchers) or not (isinstance(it.pos, int) and it.pos == it.off == 0):
                raise Unsupported('an iterator used again')
            it.used = True
            for ph in phases(I, VList(it.items), site):
                yield ph
            return
        while it.pos < len(it.items):
            v = it.items[it.pos]
            it.pos += 1
            yield ('elem', v)
        return
    if isinstance(it, (tuple, list)):
        for v in list(it):
            yield ('elem', v)
        return
    if isinstance(it, (str, bytes, bytearray)):
        for v in it:
            yield ('elem', v)
        return
    if isinstance(it, range):
        for v in it:
            yield ('elem', v)
        return
    if isinstance(it, RangeV):
        lo, hi = it.lo, it.hi
        if isinstance(lo, int) and isinstance(hi, int) and isinstance(it.step, int):
            for v in range(lo, hi, it.step):
                yield ('elem', v)
            return
        if it.step != 1:
            raise Unsupported('symbolic range with step')
        n = core.binop('-', hi, lo)
        for total, cut in ctx.splits:
            if ctx.must(int_term(n) == int_term(total)):
                first, c = int_term(lo), int_term(cut)
                yield ('others', lambda i: SInt(first + i), cut)
                yield ('elem', SInt(first + c))
                yield ('others', lambda i: SInt(first + c + 1 + i), SInt(int_term(n) - c - 1))
                return

        def gen(i):
            ctx.assume(i < int_term(n))
            return SInt(int_term(lo) + i)
        cnt = z3.If(int_term(n) > 0, int_term(n), z3.IntVal(0))
        yield ('others', gen, SInt(cnt))
        return
    if isinstance(it, VList):
        snapshot = list(it.parts)
        for p in snapshot:
            if isinstance(p, Seg):
                g = (lambda s: lambda i: _seg_elem(ctx, s, i))(p)
                g.again = not isinstance(p, core.ItemSeg)
                yield ('others', g, p.count)
            else:
                yield ('elem', p)
        return
    if isinstance(it, LazySeq):
        n = known_number(ctx, it.n)
        if n is not None:
            for i in range(n):
                yield ('elem', it.elem(i))
            return

        def gen(i):
            ctx.assume(i < int_term(it.n))
            return it.elem(SInt(i))
        gen.again = True
        yield ('others', gen, it.n)
        return
    if isinstance(it, VDict):
        it = DictView(it, 'keys')
    if isinstance(it, DictView):
        d, kind = it.d, it.kind

        def out(k, v):
            return {'keys': k, 'values': v, 'items': (k, v)}[kind]
        if isinstance(d, LazySeq) or not isinstance(d, VDict):
            raise Unsupported('iteration over %r' % (d,))
        if d.simple():
            for k, v in d.entries():
                yield ('elem', out(k, v))
            return
        for ph in dict_phases(ctx, d):
            if ph[0] == 'elem':
                yield ('elem', out(*ph[1]))
            else:
                yield ('others', (lambda g: lambda i: out(*g(i)))(ph[1]), ph[2])
        return
    if isinstance(it, EnumV):
        if not it.use():
            return
        n = it.start
        for ph in phases(I, it.it, site):
            if ph[0] == 'elem':
                yield ('elem', (n, ph[1]))
                n = core.binop('+', n, 1)
            else:
                base = n

                def gen(i, g=ph[1], base=base):
                    v = g(i)
                    return (SInt(int_term(base) + i), v)
                yield ('others', gen, ph[2])
                n = core.binop('+', n, ph[2])
        it.done = True
        return
    if isinstance(it, ZipV):
        if not it.use():
            return
        lists = [list(phases(I, x, site)) for x in it.its]
        if all(p[0] == 'elem' for l in lists for p in l):
            for t in zip(*lists):
                yield ('elem', tuple(p[1] for p in t))
            it.done = True
            return
        raise Unsupported('zip of symbolic sequences')
    if isinstance(it, MapV):
        if not it.use():
            return
        for ph in phases(I, it.it, site):
            if ph[0] == 'elem':
                yield ('elem', I.call(it.fn, [ph[1]]))
            else:
                yield ('others', (lambda g: lambda i: I.call(it.fn, [g(i)]))(ph[1]), ph[2])
        it.done = True
        return
    if isinstance(it, (GenV, FilterV)):
        raise Unsupported('nested generator iteration')
    if isinstance(it, SStr):
        # any characters: their relation to the text is not kept
        n = core.str_len(it)
        if isinstance(n, int):
            raise Unsupported('iteration over a symbolic string of known length')
        yield ('others', lambda i: ctx.new_str('character', minlen=1, maxlen=1), n)
        return
    if isinstance(it, SBytes):
        raise Unsupported('iteration over symbolic bytes')
    if isinstance(it, VByteArray):
        raise Unsupported('iteration over a bytearray')
    if isinstance(it, VObj):
        if issubclass(it.cls, tuple):
            for f in it.cls._fields:
                yield ('elem', it.fields[f])
            return
        from .models import refuse
        refuse(it, "'%s' object is not iterable", '__iter__', '__getitem__')
    if isinstance(it, (dict, set, frozenset)):
        for ph in phases(I, ctx.wrap(it), site):
            yield ph
        return
    if it is None or isinstance(it, (int, float, bool, SInt, SReal, SBool)):
        from .models import refuse
        refuse(it, "'%s' object is not iterable", '__iter__', '__getitem__')
    try:
        items = list(it)
    except TypeError as e:
        raise PyRaise(e)
    for v in items:
        yield ('elem', ctx.wrap(v))


def _seg_elem(ctx, seg, i):
    ctx.assume(i < int_term(seg.count))
    ctx.assume_feasible()
    return seg.at(SInt(i), True)


def store_late(ctx, n0):
    """unknown content that a step looked up and then changed in place counts as stored again in its container"""
    for d, k, v, (b0, b1, st) in reversed(ctx.late[n0:]):
        rng = [(b0, b1, st)]
        if isinstance(v, VAny):
            if not v.done:
                continue
            if v.born is not None:
                rng.append(v.born)
        for f in ctx.forced:
            if f.born not in rng and any(a <= f.made < e for a, e, t in rng):
                rng.append(f.born)
        for a, e, t in rng:
            for o in ctx.objects[a:e]:
                if getattr(type(o), 'is_lock', False) and o.held:
                    raise Unsupported('a loop keeps a lock of one of its elements')
        if not any(ctx.wlast.get(b, 0) > t for a, e, t in rng for b in range(a, e)):
            continue
        if d is None or d is STALE or d.base is not None and d.base.shared:
            raise Unsupported('elements of unknown number changed in place by a loop')
        d.set(k, v)


STALE = object()


def any_entry(ctx, base, n0, excluded, also=False):
    """an arbitrary entry of the base other than the excluded keys: one not known yet, or (of a copy that was made when n0 entries
    were known) one that became known later"""
    later = base.entries[n0:] if also else []
    j = ctx.choose(len(later) + 1, 'entry known since') if later else 0
    if j:
        k, v = later[j - 1]
    else:
        k, v = base.fresh_entry()
    for q in excluded:
        ctx.assume(bterm(core.neg(eq(k, q))))
    ctx.assume_feasible()
    return k, v


def dict_phases(ctx, d, copy=False):
    """definite entries in arbitrary order with unknown others around them; copy: for a copy that outlives changes of d"""
    d0, ops0 = d, list(d.ops)
    if copy:
        d = d.frozen()

    def owner():
        return d0 if len(d0.ops) == len(ops0) and all(a is b for a, b in zip(d0.ops, ops0)) else STALE
    if any(op[0] == 'layer' for op in d.ops):
        # what a previous unbounded phase stored: arbitrary entries of the layer's shape
        return _layer_phases(ctx, d, copy, owner)
    defs = []
    dead = []
    base = d.base
    cand = list(base.entries) if base else []
    for k, v in cand:
        cur, live = v, True
        for op in d.ops:
            if op[0] == 'clear':
                live = False
            elif truth(eq(op[1], k)):
                live = op[0] == 'set'
                cur = op[2] if live else None
        if live:
            defs.append((k, cur))
    pos = 0
    for j, op in enumerate(d.ops):
        if op[0] == 'set':
            later = d.ops[j + 1:]
            if any(o[0] == 'clear' or truth(eq(o[1], op[1])) for o in later):
                continue
            if any(truth(eq(k, op[1])) for k, _ in cand):
                continue
            # make the absence in the base definite
            had, _ = base.lookup(op[1]) if base else (False, None)
            if had:
                # materialised just now: replaced by the overlay value
                pass
            defs.append((op[1], op[2]))
        elif op[0] == 'del' and base:
            base.lookup(op[1])
    if base is None or base.m is None or any(op[0] == 'clear' for op in d.ops):
        return [('elem', kv) for kv in defs]
    n = len(defs)
    perms = list(itertools.permutations(range(n)))
    if n > 5:
        raise Unsupported('too many tracked dictionary entries in one loop')
    p = perms[ctx.choose(len(perms), 'order')] if len(perms) > 1 else perms[0]

    out = []
    rest = base.m
    used = z3.IntVal(0)
    n0 = len(base.entries)

    def gen(i):
        b0 = len(ctx.objects)
        k, v = any_entry(ctx, base, n0, [op[1] for op in d.ops], copy)
        ctx.late.append((owner(), k, v, (b0, len(ctx.objects), ctx.wstamp)))
        return k, v
    for j in range(n + 1):
        if j < n:
            c = ctx.fresh('nph', z3.IntSort())
            ctx.add(c >= 0, used + c <= rest)
            used = used + c
        else:
            c = rest - used
        out.append(('others', gen, SInt(z3.simplify(c))))
        if j < n:
            out.append(('elem', defs[p[j]]))
    return out


def _layer_phases(ctx, d, copy, owner):
    """iteration over a dictionary that an unbounded phase has filled: known keys that are definitely present are
    tracked, everything else is an arbitrary (key, value) of the layer's shape or of the base"""
    known = []
    for op in d.ops:
        if op[0] in ('set', 'del'):
            known.append(op[1])
        elif op[0] == 'layer':
            known.extend(op[1].kept)
            known.extend(k for k, _, _ in op[1].memo)
    if d.base is not None:
        known.extend(k for k, _ in d.base.entries)
        known.extend(d.base.absent)
    uniq = []
    for k in known:
        if not any(truth(eq(k, u)) for u in uniq):
            uniq.append(k)
    defs = []
    for k in uniq:
        had, v = d.lookup(k)
        if had:
            defs.append((k, v))
    layers = [op[1] for op in d.ops if op[0] == 'layer']
    gens = [L for L in layers if L.can_set and L.mk_key is not None]
    if len(gens) != len([L for L in layers if L.can_set]):
        raise Unsupported('iteration over a dictionary of unknown keys')

    n0 = len(d.base.entries) if d.base is not None else 0

    def gen(i):
        n = len(gens) + (1 if d.base is not None and d.base.m is not None else 0)
        if n == 0:
            raise PathDone()
        j = ctx.choose(n, 'which') if n > 1 else 0
        if j < len(gens):
            k = gens[j].mk_key()
            for u in uniq:
                ctx.assume(bterm(core.neg(eq(k, u))))
            ctx.assume_feasible()
            b0 = len(ctx.objects)
            v = gens[j].mk_val(k)
            gens[j].memo.append((k, 'set', v))
            ctx.late.append((owner(), k, v, (b0, len(ctx.objects), ctx.wstamp)))
            return k, v
        b0 = len(ctx.objects)
        k, v = any_entry(ctx, d.base, n0, uniq, copy)
        ctx.late.append((owner(), k, v, (b0, len(ctx.objects), ctx.wstamp)))
        return k, v
    n = len(defs)
    if n > 5:
        raise Unsupported('too many tracked dictionary entries in one loop')
    perms = list(itertools.permutations(range(n)))
    p = perms[ctx.choose(len(perms), 'order')] if len(perms) > 1 else perms[0]
    out = []
    for j in range(n + 1):
        c = ctx.fresh('nph', z3.IntSort())
        ctx.add(c >= 0)
        out.append(('others', gen, SInt(c)))
        if j < n:
            out.append(('elem', defs[p[j]]))
    return out


# ------------------------------------------------------------------ shapes
def shape(v, start, depth=0):
    """hashable description of a set of values containing v"""
    v = force(v)
    if v is UNBOUND:
        return ('unbound',)
    if v is None:
        return ('none',)
    if isinstance(v, (bool, SBool)):
        return ('bool',)
    if isinstance(v, (int, SInt)):
        return ('int',)
    if isinstance(v, (float, SReal)):
        return ('float',)
    if isinstance(v, str):
        return ('lit', v)
    if isinstance(v, SStr):
        return str_shape(v, start)
    if isinstance(v, (bytes, SBytes)):
        return rest_shape(v, False) or ('bytes',)
    if isinstance(v, (Heap, core.VFunc)) and v.birth is not None and v.birth < start and not isinstance(v, core.Item):
        return ('ref', v.birth)
    if isinstance(v, tuple):
        return ('tuple',) + tuple(shape(x, start, depth + 1) for x in v)
    if depth > 4:
        raise Unsupported('value too deep for a loop abstraction')
    if isinstance(v, VDict):
        ks, vs = set(), set()
        for op in v.ops:
            if op[0] == 'set':
                ks.add(shape(op[1], start, depth + 1))
                vs.add(shape(op[2], start, depth + 1))
            elif op[0] == 'layer':
                ks |= op[1].kshapes
                vs |= op[1].shapes
        if v.base is not None:
            if getattr(v.base, 'shapes', None) is None:
                for k, x in v.base.entries:
                    ks.add(shape(k, start, depth + 1))
                    vs.add(shape(x, start, depth + 1))
                if v.base.m is not None:
                    raise Unsupported('copy of an unknown dictionary made inside a loop')
            else:
                ks |= v.base.kshapes
                vs |= v.base.shapes
        return ('dict', v.is_set, norm(ks), norm(vs))
    if isinstance(v, VList):
        if v.parts and isinstance(v.parts[0], (core.Item, core.ItemSeg)):
            src = core.held_items(v.parts)
            if src is not None:
                return ('held', v.is_tuple, src.birth)
        es = set()
        for p in v.parts:
            if isinstance(p, Seg):
                if getattr(p, 'shapes', None) is None:
                    raise Unsupported('copy of an unknown list made inside a loop')
                es |= p.shapes
            else:
                es.add(shape(p, start, depth + 1))
        return ('list', v.is_tuple, norm(es))
    if isinstance(v, LazySeq):
        return ('split',) + v.made if v.made is not None else ('opaque', 'LazySeq')
    if isinstance(v, Dead):
        return ('opaque', v.what)
    if isinstance(v, VObj):
        if issubclass(v.cls, BaseException):
            return ('exc', v.cls)
        if v.cls in core.cur().class_cands:
            check_class_cands(core.cur(), v)
        return ('obj', v.cls, tuple(sorted((f, shape(x, start, depth + 1)) for f, x in v.fields.items())))
    if isinstance(v, VByteArray):
        return rest_shape(v, True) or ('bytearray',)
    if isinstance(v, ModelObj):
        if isinstance(v, core.Item):
            return ('item', v.src.birth)
        if isinstance(v, Opaque):
            return ('opq', v.label, v.pycls)
        if getattr(v, 'loop_ok', False):
            return ('model', type(v))
        if getattr(v, 'stateless', False):
            return ('inst', type(v), tuple((n, shape(x, start, depth + 1)) for n, x in sorted(v.__dict__.items()) if n != 'birth'))
        raise Unsupported('model object %s created inside a loop' % type(v).__name__)
    from .interp import DictView
    if isinstance(v, (core.VFunc, core.VBound, core.BMethod, DictView)):
        return ('opaque', 'function')
    return ('const', _Hold(v))


def rest_shape(v, array):
    """bytes that begin with all the records of a sequence from one of them on"""
    r = core.packed_rest(v)
    if r is None or str(z3.simplify(r[2])) != str(z3.simplify(int_term(r[0].n))):
        return None
    return ('rest', array, r[0].no, tuple(p if isinstance(p, bytes) else part_key(p) for p in r[3]))


def part_key(p):
    a, x = (p.a.no if p.kind == 'items' else p.a), p.x
    return p.kind, str(a), str(x), str(p.n)


def rest_moved(a, b):
    """how many records further b begins than a, if both are such bytes and otherwise the same"""
    if not all(isinstance(x, (SBytes, VByteArray)) for x in (a, b)):
        return None
    x, y = (rest_shape(v, isinstance(v, VByteArray)) for v in (a, b))
    if x is None or x != y:
        return None
    d = z3.simplify(core.packed_rest(b)[1] - core.packed_rest(a)[1])
    return d.as_long() if z3.is_int_value(d) else None


def rest_from(ctx, e, j):
    """e, but from the record number j on"""
    s, _, _, after = core.packed_rest(e)
    ctx.add(0 <= j, j <= int_term(s.n))
    b = mk_bytes([s.part(j, int_term(s.n))] + list(after))
    return VByteArray(b) if isinstance(e, VByteArray) else b


def live_class_cands(ctx, cls):
    return [(j, c) for j, c in enumerate(ctx.class_cands.get(cls, ())) if (cls, j) not in ctx.explorer.cls_dropped]


def check_class_cands(ctx, v):
    """the candidate invariants of its class must hold of an object that enters an abstraction; else they are given up"""
    for j, c in live_class_cands(ctx, v.cls):
        try:
            ok = provably(c(v))
        except (Unsupported, PyRaise, AttributeError, TypeError):
            ok = False
        if not ok:
            ctx.explorer.cls_dropped.add((v.cls, j))
            raise Restart(list(ctx.explorer.start))


def str_shape(v, start):
    out = []
    keep = False
    for p in v.parts:
        if isinstance(p, str):
            out.append(('l', p))
            keep = True
        elif p.age < start:
            out.append(('old', _Hold(p)))
            keep = True
        else:
            m = p.meta
            f = (bool(m.get('lower')), m.get('no', frozenset()), m.get('only'), m.get('minlen', 0))
            if f != (False, frozenset(), None, 0):
                keep = True
            out.append(('a',) + f)
    return ('rope', tuple(out)) if keep else ('str',)


class _Hold(object):
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, _Hold) and self.v is o.v

    def __hash__(self):
        return 1

    def __repr__(self):
        return 'hold %r' % (self.v,)


def norm(shapes):
    """merge literal strings into 'str' when there are several"""
    s = set(shapes)
    lits = [x for x in s if x[0] in ('lit', 'rope')]
    if ('str',) in s or len(lits) > 3:
        for x in lits:
            s.discard(x)
        if lits:
            s.add(('str',))
    return frozenset(s)


def make(ctx, sh, name, depth=0):
    """fresh value of a shape"""
    k = sh[0]
    if k == 'unbound':
        return UNBOUND
    if k == 'none':
        return None
    if k == 'bool':
        return SBool(ctx.fresh(name, z3.BoolSort()))
    if k == 'int':
        return SInt(ctx.fresh(name, z3.IntSort()))
    if k == 'float':
        return SReal(ctx.fresh(name, z3.RealSort()))
    if k == 'lit':
        return sh[1]
    if k == 'str':
        return ctx.new_str(name)
    if k == 'rope':
        ps = []
        for q in sh[1]:
            if q[0] == 'l':
                ps.append(q[1])
            elif q[0] == 'old':
                ps.append(SStr((q[1].v,)))
            else:
                ps.append(ctx.new_str(name, no=q[2], only=q[3], lower=q[1], minlen=q[4]))
        return core.mk_str(ps)
    if k == 'bytes':
        return raw_bytes(name)
    if k == 'ref':
        return ctx.objects[sh[1]]
    if k == 'tuple':
        return tuple(make(ctx, x, name) for x in sh[1:])
    if k == 'const':
        return sh[1].v
    if k == 'dict':
        if not sh[3]:
            d = VDict()
            d.is_set = sh[1]
            return d
        b = BaseMap(name, (lambda: any_of(ctx, sh[2], name + 'k')), (lambda q: any_of(ctx, sh[3], name + 'v')))
        b.shapes = sh[3]
        b.kshapes = sh[2]
        d = VDict(b)
        d.is_set = sh[1]
        return d
    if k == 'list':
        if not sh[2]:
            return VList([], sh[1])
        n = ctx.fresh(name + 'len', z3.IntSort())
        ctx.add(n >= 0)
        s = Seg(SInt(n), lambda: any_of(ctx, sh[2], name + 'e'))
        s.shapes = sh[2]
        return VList([s], sh[1])
    if k == 'held':
        src, lo, hi = ctx.held_snap[sh[2]]
        ctx.add(int_term(lo) <= int_term(hi))
        return VList([core.ItemSeg(src, lo, core.fold_int(int_term(hi) - int_term(lo)))], sh[1])
    if k == 'item':
        return core.Item(ctx.objects[sh[1]], SInt(ctx.fresh(name + 'no', z3.IntSort())))
    if k == 'exc':
        return VObj(sh[1], {'args': (ctx.new_str(name),)})
    if k == 'obj':
        o = VObj(sh[1], {f: make(ctx, s, name + f) for f, s in sh[2]})
        for j, c in live_class_cands(ctx, sh[1]):
            ctx.add(bterm(c(o)))
        return o
    if k == 'bytearray':
        return VByteArray(raw_bytes(name))
    if k == 'rest':
        return VByteArray(raw_bytes(name)) if sh[1] else raw_bytes(name)
    if k == 'opq':
        return Opaque(sh[1], sh[2])
    if k == 'model':
        return sh[1].arbitrary(ctx)
    if k == 'inst':
        o = sh[1].__new__(sh[1])
        for n, x in sh[2]:
            object.__setattr__(o, n, make(ctx, x, '%s.%s' % (name, n), depth + 1))
        return o
    if k == 'opaque':
        return Dead(sh[1])
    if k == 'split':
        from .models import str_split
        return str_split(ctx.interp, ctx.new_str(name), sh[1], sh[2])
    raise Unsupported('shape %r' % (sh,))


def value_shape(sh):
    return sh[0] in ('none', 'bool', 'int', 'float', 'lit', 'str', 'rope', 'bytes', 'split') or \
        sh[0] == 'tuple' and all(value_shape(x) for x in sh[1:]) or sh[0] == 'list' and all(value_shape(x) for x in sh[2])


def any_of(ctx, shapes, name):
    ss = sorted(shapes, key=repr)
    if len(ss) == 1:
        return make(ctx, ss[0], name)
    return VAny(name, [(repr(s)[:40], (lambda s=s: make(ctx, s, name))) for s in ss])


# ------------------------------------------------------------------ abstractions
INT_BOUNDS = [('ge', 0), ('ge', 1), ('le', 1), ('le', 255), ('le', (1 << 64) - 1), ('le', (1 << 128) - 1)]


def bound_term(b, t):
    return t >= b[1] if b[0] == 'ge' else t <= b[1]


class Abs(object):
    """abstraction of one loop phase: location -> description; monotonically weakened"""
    stepped = False             # a step came to its end
    upto = True                 # 'while a < b': a <= b at the loop's head

    def __init__(self):
        self.locs = {}
        self.dropped = set()
        self.apart = set()          # pairs of counters that a step changed by different amounts (/not by opposite amounts)


class LAbs(object):
    def __init__(self, kind):
        self.kind = kind            # scalar / list / dict / bytes
        self.shapes = frozenset()
        self.kshapes = frozenset()
        self.affine = None
        self.pos = None             # moves by one record of the sequence with this number in every step
        self.bounds = frozenset()
        self.rel = frozenset()      # ('ge','entry') / ('le','entry')
        self.notkept = frozenset()
        self.can_del = False
        self.exact = None           # appended per iteration
        self.most = None            # at most
        self.prefix = True
        self.nonempty = False
        self.held = None            # a list of exactly the items held of this source
        self.cells = None           # a list of fixed length: one abstraction per element (None: unchanged)
        self.guard = None           # local variable: as long as it holds this list, the list is unchanged


def slot_value(obj, slot):
    if isinstance(obj, Env):
        return obj.vars.get(slot, UNBOUND)
    if isinstance(obj, VList):
        return obj.parts
    if isinstance(obj, VDict):
        return obj.ops
    if isinstance(obj, VByteArray):
        return obj.b
    if isinstance(obj, VObj):
        return obj.fields.get(slot, UNBOUND)
    return obj.__dict__.get(slot, UNBOUND)


def set_slot(obj, slot, v):
    if isinstance(obj, Env):
        obj.set(slot, v)
    elif isinstance(obj, VObj):
        if v is UNBOUND:
            obj.fields.pop(slot, None)
        else:
            obj.setfield(slot, v)
    else:
        obj.setfield(slot, v)


def list_marks(ctx):
    """the lengths, now, of the lists of keys that lookups extend"""
    m = {}
    for d in ctx.objects:
        if isinstance(d, VDict):
            if d.base is not None:
                m[id(d.base.entries)], m[id(d.base.absent)] = len(d.base.entries), len(d.base.absent)
            for op in d.ops:
                if op[0] == 'layer':
                    m[id(op[1].memo)] = len(op[1].memo)
    return m


def known_keys(ctx, d, marks={}):
    def cut(l):
        return l[:marks.get(id(l), len(l))]
    ks = []
    for op in d.ops:
        if op[0] in ('set', 'del'):
            ks.append(op[1])
        elif op[0] == 'layer':
            ks.extend(op[1].kept)
            ks.extend(k for k, _, _ in cut(op[1].memo))
    if d.base is not None:
        ks.extend(k for k, _ in cut(d.base.entries))
        ks.extend(cut(d.base.absent))
    ks.extend(ctx.interest)
    return ks


def definitely_eq(a, b):
    r = eq(a, b)
    return r if isinstance(r, bool) else core.cur().must(r.t)


def provably(v):
    return v if isinstance(v, bool) else core.cur().must(bterm(v))


def provably_ne(a, b):
    try:
        r = eq(a, b)
    except Unsupported:
        return False
    return (not r) if isinstance(r, bool) else core.cur().must(z3.Not(r.t))


def length(parts):
    n = 0
    for p in core.expand(parts):
        n = core.binop('+', n, p.count if isinstance(p, Seg) else 1)
    return n


class Phase(object):
    def __init__(self, I, gen, body, site, count):
        self.I, self.ctx = I, I.ctx
        self.gen, self.body, self.site, self.count = gen, body, site, count

    def havoc(self, A, i):
        """put every location of A into an arbitrary state after i iterations; returns {loc: entry info}"""
        ctx = self.ctx
        self.i = i
        entry = {}
        self.snap = {}
        ctx.held_snap = self.snap
        self.filled = False
        uses = {key: L.held is not None or any(s[0] == 'held' for s in L.shapes) for key, L in A.locs.items()}
        for key, L in A.locs.items():
            if L.kind == 'list' and L.held is not None and not core.is_held(ctx.objects[key[0]].parts, ctx.objects[L.held]):
                L.held = None
        moved = set()
        for key in sorted(A.locs, key=repr):
            g = A.locs[key].guard
            if g is not None and g in A.locs and g not in entry and g not in moved:
                if ctx.choose(2, 'still the list before') == 0:
                    e = list(ctx.objects[key[0]].parts)
                    entry[key] = (e, list(e))
                    e = slot_value(ctx.objects[g[0]], g[1])
                    entry[g] = (e, e)
                else:
                    moved.add(g)
        for key in sorted(A.locs, key=lambda k: (uses[k], repr(k))):
            if key in entry:
                continue
            birth, slot = key
            L = A.locs[key]
            obj = ctx.objects[birth]
            nm = 'h_%s' % slot
            if uses[key] and not self.filled:
                self.fill_snap()
            if L.kind == 'cells':
                e = list(obj.parts)
                obj.setparts([v if c is None else self.havoc_scalar(c, v, i, nm) for v, c in zip(e, L.cells)])
                entry[key] = (e, list(obj.parts))
            elif L.kind == 'list' and L.held is not None:
                src, lo, hi = self.snap[L.held]
                s = core.ItemSeg(src, lo, core.fold_int(int_term(hi) - int_term(lo)))
                ctx.add(int_term(lo) <= int_term(hi))
                e = list(obj.parts)
                if L.exact is not None and not e:
                    ctx.add(int_term(s.count) == i * L.exact)
                obj.setparts([s])
                entry[key] = (e, [s])
            elif L.kind == 'list':
                L.held = None
                e = list(obj.parts)
                n = ctx.fresh('cnt', z3.IntSort())
                ctx.add(n >= 0)
                if L.exact is not None:
                    ctx.add(n == i * L.exact)
                elif L.most is not None and L.prefix:
                    ctx.add(n <= i * L.most)
                s = Seg(SInt(n), (lambda L=L, nm=nm: any_of(ctx, L.shapes, nm)))
                s.shapes = L.shapes
                if L.prefix and len(A.locs) == 1 and self.env is not None and getattr(self.env, 'collect', None) is obj and \
                        getattr(self.gen, 'again', False) and all(value_shape(x) for x in L.shapes):
                    s.gen = self.I.again(self.env.made_by, self.env.parent, self.gen, self.count, s.gen)
                if L.prefix:
                    obj.setparts(e + ([s] if L.shapes else []))
                else:
                    for p in e:
                        sh = getattr(p, 'shapes', None) if isinstance(p, Seg) else {shape(p, self.start)}
                        if sh is None:
                            raise Unsupported('list of unknown elements rebuilt in a loop')
                        L.shapes = norm(L.shapes | sh)
                    s.shapes = L.shapes
                    obj.setparts([s] if L.shapes else [])
                entry[key] = (e, list(obj.parts))
            elif L.kind == 'dict':
                ks = known_keys(ctx, obj)
                kept = [k for j, k in enumerate(ks) if j not in L.notkept]
                lay = Layer(kept, (lambda q, L=L, nm=nm: any_of(ctx, L.shapes, nm)), bool(L.shapes), L.can_del)
                lay.shapes = L.shapes
                lay.kshapes = L.kshapes
                lay.mk_key = (lambda L=L, nm=nm: any_of(ctx, L.kshapes, nm + 'k')) if L.kshapes else None
                e = list(obj.ops)
                obj.note()
                obj.ops.append(('layer', lay))
                entry[key] = (ks, len(obj.ops), lay)
            elif L.kind == 'bytes':
                e = obj.b
                if L.affine is not None and rest_moved(e, e) == 0:
                    obj.setb(rest_from(ctx, e, core.packed_rest(e)[1] + i * L.affine))
                else:
                    p = raw_bytes('app')
                    obj.setb(mk_bytes([e, p]) if L.prefix else p)
                entry[key] = (e, obj.b)
            else:
                e = slot_value(obj, slot)
                v = self.havoc_scalar(L, e, i, nm, isinstance(obj, Env), key in moved)
                set_slot(obj, slot, v)
                entry[key] = (e, v)
        if not self.filled:
            self.fill_snap()
        # counters that every step changes by the same amount
        ns = self.counters(A, {k: (x[0], x[1]) for k, x in entry.items() if len(x) == 2})
        self.assumed = []
        for (k1, e1, v1), (k2, e2, v2) in itertools.combinations(ns, 2):
            if (k1, k2) not in A.apart:
                self.assumed.append((k1, k2))
                ctx.add(int_term(v1) - int_term(e1) == int_term(v2) - int_term(e2))
            elif (k1, k2, 'sum') not in A.apart:
                self.assumed.append((k1, k2, 'sum'))
                ctx.add(int_term(v1) - int_term(e1) == int_term(e2) - int_term(v2))
        # flags that say whether a list got elements
        for (k1, e1, v1), (k2, e2, v2) in self.flags(ns):
            if (k1, k2, 'some') not in A.apart and not (known_number(ctx, e2) == 0):
                A.apart.add((k1, k2, 'some'))
            if (k1, k2, 'some') not in A.apart:
                self.assumed.append((k1, k2, 'some'))
                ctx.add((bterm(v1) != bterm(e1)) == (int_term(v2) > 0))
        if not A.stepped:
            ctx.add(i == 0)
        return entry

    def flags(self, ns):
        return [(a, b) for a in ns for b in ns if isinstance(a[2], (bool, SBool)) and b[0][1] == 'len']

    def fill_snap(self):
        self.filled = True
        for o in list(self.ctx.objects):
            if isinstance(o, core.ItemSource):
                self.snap[o.birth] = (o, o.start(), o.taken)

    def counters(self, A, vals):
        """the whole-number (and yes/no: 1 or 0) locations and the lengths of lists: (location, value before, value after)"""
        out = []
        for k in sorted(vals, key=repr):
            L = A.locs.get(k)
            if L is None:
                continue
            if L.kind == 'list':
                out.append(((k, 'len'), *[length(x) for x in vals[k]]))
                continue
            for j, (c, e, v) in enumerate(zip(L.cells, *vals[k]) if L.kind == 'cells' else [(L, *vals[k])] if L.kind == 'scalar' else []):
                if c is not None and (c.shapes == {('int',)} and all(isinstance(x, (int, SInt)) and not isinstance(x, bool) for x in (e, v)) or
                                      c.shapes == {('bool',)} and all(isinstance(x, (bool, SBool)) for x in (e, v))):
                    out.append(((k, j), e, v))
        return out

    def havoc_scalar(self, L, e, i, nm, local=False, moved=False):
        ctx = self.ctx
        fe = e
        num = L.shapes <= {('int',)} or L.shapes <= {('float',)} or L.shapes <= {('int',), ('float',)}
        if num and not isinstance(e, VAny) and core.is_numeric(e) and not isinstance(e, (bool, SBool)):
            isf = ('float',) in L.shapes or is_realish(e)
            if L.affine is not None:
                if isf:
                    return SReal(real_term(e) + z3.ToReal(i) * core.realval(L.affine) if not isinstance(L.affine, int)
                                 else real_term(e) + z3.ToReal(i) * L.affine)
                return core.fold_int(int_term(e) + i * L.affine)
            if L.pos is not None and not isf:
                return SInt(int_term(e) + ctx.packed[L.pos].pos(i))
            t = ctx.fresh(nm, z3.RealSort() if isf else z3.IntSort())
            et = real_term(e) if isf else int_term(e)
            for b in sorted(L.bounds):
                if not ctx.must(bound_term(b, et)):
                    L.bounds = L.bounds - {b}
                    continue
                ctx.add(bound_term(b, t))
            for r in L.rel:
                ctx.add(t >= et if r == 'ge' else t <= et)
            return SReal(t) if isf else SInt(t)
        if L.affine is not None and not isinstance(e, VAny) and rest_moved(e, e) == 0 and L.shapes == {rest_shape(e, isinstance(e, VByteArray))}:
            return rest_from(ctx, e, core.packed_rest(e)[1] + i * L.affine)
        alts = [('entry', lambda: e)]
        for s in sorted(L.shapes, key=repr):
            def mk(s=s, snap=self.snap):
                was, ctx.held_snap = ctx.held_snap, snap
                v = make(ctx, s, nm)
                ctx.held_snap = was
                if s == ('int',):
                    for b in L.bounds:
                        ctx.add(bound_term(b, v.t))
                if s[0] == 'dict' and L.notkept is not None and isinstance(v, VDict) and v.base is not None:
                    for j, q in enumerate(ctx.interest):
                        if ('absent', j) in L.rel:
                            v.base.absent.append(q)
                return v
            alts.append((repr(s)[:30], mk))
        if len(L.shapes) == 1 and list(L.shapes)[0] in (('bool',), ('str',), ('bytes',)) and e is not UNBOUND and not isinstance(e, VAny):
            s = list(L.shapes)[0]
            if shape(e, 1 << 60)[0] == s[0]:
                return alts[1][1]()
        if local:
            if moved:
                alts.pop(0)
            a = VAny(nm, alts)
            a.unb = e is UNBOUND or ('unbound',) in L.shapes or (isinstance(e, VAny) and e.unb)
            return a
        if any(a[0].startswith("('unbound") for a in alts) or e is UNBOUND:
            # unbound alternative: resolved at once
            k = ctx.choose(len(alts), 'unbound ' + nm) if len(alts) > 1 else 0
            return alts[k][1]()
        return VAny(nm, alts)

    # -------------------------------------------------------------- inductiveness
    def check(self, A, W, entry, i):
        """after one step: weaken A where the step left it; True if something changed"""
        changed = False
        ctx = self.ctx
        step = {}
        still = set()
        # was something that the havoc made, or a value that it left open, changed in place?
        self.touched = any(ctx.wlast.get(b, 0) > self.stamp for b in range(self.start, self.first)) or \
            any(self.start <= v.made < self.first and any(ctx.wlast.get(b, 0) > v.born[2] for b in range(v.born[0], v.born[1])) for v in ctx.forced)
        # what the step did not write must still be described (a count that grows by one in every step did not grow)
        for key in sorted(A.locs, key=repr):
            if key not in W.writes:
                o = ctx.objects[key[0]]
                v = slot_value(o, key[1])
                W.writes[key] = (o, key[1], list(v) if isinstance(v, list) else v)
        for key in sorted(A.locs, key=repr):
            if A.locs[key].guard is not None and self.still(A.locs[key].guard, key, A, W):
                o = ctx.objects[key[0]]
                if self.unchanged(o, *([p for p in core.expand(l) if not (isinstance(p, Seg) and ctx.must(int_term(p.count) == 0))] for l in (entry[key][0], o.parts))):
                    still.add(key)
                else:
                    A.locs[key].guard = None
                    changed = True
        for key, (obj, slot, old) in list(W.writes.items()):
            if obj is self.env and slot in self.dead or key in still:
                continue
            L = A.locs.get(key)
            new = slot_value(obj, slot)
            if isinstance(obj, VList):
                old = core.expand(old)
                if key in entry:
                    entry[key] = (core.expand(entry[key][0]), core.expand(entry[key][1]))
                if L is None and old and len(old) == len(new) and not any(isinstance(p, Seg) for p in old + list(new)) and \
                        not self.unchanged(obj, old, new):
                    L = A.locs[key] = LAbs('cells')
                    L.cells = [None] * len(old)
                    changed = True
                if L is not None and L.kind == 'cells':
                    if len(new) != len(L.cells) or any(isinstance(p, Seg) for p in new):
                        A.locs[key] = LAbs('list')
                        self.widen(A.locs[key], obj, slot, key, None, entry[key][0] if key in entry else old, new, W.start, first=True)
                        changed = True
                        continue
                    step[key] = (old, list(new))
                    for j in range(len(old)):
                        if L.cells[j] is None:
                            if self.same_val(old[j], new[j]):
                                continue        # made before the loop: a location of its own
                            L.cells[j] = LAbs('scalar')
                            self.widen(L.cells[j], obj, slot, key, None, old[j], new[j], W.start, first=True)
                            changed = True
                        elif key not in entry or self.widen(L.cells[j], obj, slot, key, (entry[key][0][j], entry[key][1][j]), old[j], new[j], W.start, first=False):
                            changed = True
                    continue
            if not isinstance(obj, (VDict, VByteArray)):
                step[key] = (old, list(new) if isinstance(obj, VList) else new)
            if L is None:
                if self.unchanged(obj, old, new):
                    continue
                L = self.new_loc(obj, slot)
                A.locs[key] = L
                if L.kind == 'list' and self.env is not None:
                    # only one local variable held it and that was given another value
                    for v in sorted(self.env.vars):
                        k = (self.env.birth, v)
                        if v not in self.dead and k in W.writes and W.writes[k][2] is obj and self.env.vars[v] is not obj:
                            L.guard = k
                            break
                self.widen(L, obj, slot, key, None, old, new, W.start, first=True)
                changed = True
            else:
                if self.widen(L, obj, slot, key, entry[key], old, new, W.start, first=False):
                    changed = True
        for k, x in entry.items():
            if k not in step and len(x) == 2:
                step[k] = (x[1], x[1])
        now = self.counters(A, step)
        known = {k for k, o, n in now}
        for p in self.assumed:
            if not (p[0] in known and p[1] in known) and p not in A.apart:
                A.apart.add(p)
                changed = True
        for (k1, o1, n1), (k2, o2, n2) in itertools.combinations(now, 2):
            for p, sg in (((k1, k2), -1), ((k1, k2, 'sum'), 1)):
                if p not in A.apart:
                    d = z3.simplify(int_term(n1) - int_term(o1) + sg * (int_term(n2) - int_term(o2)))
                    if z3.is_int_value(d) and d.as_long() == 0:
                        continue
                    if z3.is_int_value(d) or not ctx.must(d == 0):
                        A.apart.add(p)
                        changed = True
        for (k1, o1, n1), (k2, o2, n2) in self.flags(now):
            p = (k1, k2, 'some')
            if p not in A.apart:
                e1, e2 = self.before(A, entry, k1, o1), self.before(A, entry, k2, o2)
                if e1 is None or e2 is None or not ctx.must(int_term(e2) == 0) or \
                        not ctx.must((bterm(n1) != bterm(e1)) == (int_term(n2) > 0)):
                    A.apart.add(p)
                    changed = True
        if not A.stepped:
            A.stepped = changed = True
        return changed

    def before(self, A, entry, k, old):
        """the value on entry to the loop of a counter; old: its value before the step"""
        key, j = k
        if key not in entry:
            return old              # not described so far: unchanged by the steps before
        e = entry[key][0]
        return length(e) if j == 'len' else e[j] if A.locs[key].kind == 'cells' else e

    def still(self, g, key, A, W):
        """the guarding variable still (or again) holds the list"""
        if g not in A.locs:
            return False
        v = slot_value(self.ctx.objects[g[0]], g[1])
        if isinstance(v, VAny):
            if not v.done:
                return True
            v = force(v)
        return v is self.ctx.objects[key[0]]

    def unchanged(self, obj, old, new):
        if isinstance(obj, VList):
            return len(old) == len(new) and all(a is b or (not isinstance(a, Seg) and not isinstance(b, Seg) and self.same_val(a, b))
                                                for a, b in zip(old, new))
        if isinstance(obj, VDict):
            return len(old) == len(new) and all(a is b for a, b in zip(old, new))
        return self.same_val(old, new)

    def same_val(self, a, b):
        if a is b:
            return True
        if isinstance(a, VAny) and not a.done or isinstance(b, VAny) and not b.done:
            return False
        a, b = force(a), force(b)
        if a is b:
            return True
        if a is UNBOUND or b is UNBOUND:
            return False
        if isinstance(a, Heap) or isinstance(b, Heap):
            return False
        if type(a) is not type(b) and not (core.is_intish(a) and core.is_intish(b) and not isinstance(a, (bool, SBool)) and not isinstance(b, (bool, SBool))) \
                and not (is_realish(a) and is_realish(b)) and not (isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool))) \
                and not (core.is_str(a) and core.is_str(b)):
            return False
        try:
            r = eq(a, b)
        except Unsupported:
            return False
        return provably(r) if isinstance(r, (bool, SBool)) else False

    def new_loc(self, obj, slot):
        if isinstance(obj, VList):
            return LAbs('list')
        if isinstance(obj, VDict):
            return LAbs('dict')
        if isinstance(obj, VByteArray):
            return LAbs('bytes')
        return LAbs('scalar')

    def widen(self, L, obj, slot, key, ent, old, new, start, first):
        ctx = self.ctx
        ch = False
        if L.kind == 'list':
            base = old if first else ent[1]
            n0 = len(base)
            pre = len(new) >= n0 and all(a is b for a, b in zip(base, new))
            if pre:
                added = new[n0:]
            else:
                if L.prefix:
                    L.prefix = False
                    ch = True
                added = new
            cnt = 0
            for p in added:
                if isinstance(p, Seg):
                    cnt = None
                    sh = getattr(p, 'shapes', None)
                    if sh is None:
                        if not any(p is q for q in base):
                            raise Unsupported('unknown list segment appended in a loop')
                        sh = frozenset()
                else:
                    sh = {shape(p, start)}
                if norm(L.shapes | sh) != L.shapes:
                    L.shapes = norm(L.shapes | sh)
                    ch = True
                if cnt is not None:
                    cnt += 1
            if not pre:
                cnt = None
                if not first or True:
                    for p in (old if first else ent[0]):
                        sh = getattr(p, 'shapes', None) if isinstance(p, Seg) else {shape(p, start)}
                        if sh is None:
                            raise Unsupported('list of unknown elements rebuilt in a loop')
                        if norm(L.shapes | sh) != L.shapes:
                            L.shapes = norm(L.shapes | sh)
                            ch = True
            if first:
                held = core.held_items(new)
                L.held = held.birth if held is not None else None
            elif L.held is not None and not core.is_held(new, ctx.objects[L.held]):
                L.held = None
                ch = True
            if first:
                L.exact = cnt
                ch = True
            elif L.exact is not None and cnt != L.exact:
                L.exact = None
                ch = True
            most = None if cnt is None or not first and L.most is None else cnt if first else max(cnt, L.most)
            if most != L.most:
                L.most = most
                ch = True
            return ch
        if L.kind == 'dict':
            if first:
                ks = self._known_from(ctx, obj, old)
                pos = len(old)
                if len(new) < pos or not all(a is b for a, b in zip(old, new)):
                    # last op replaced in place (same key): treat the replaced op as new
                    pos = 0
                    while pos < min(len(old), len(new)) and old[pos] is new[pos]:
                        pos += 1
            else:
                ks, pos, lay = ent
            ops = new[pos:]
            for op in ops:
                if op[0] == 'set':
                    sh = {shape(op[2], start)}
                    ksh = {shape(op[1], start)}
                    if norm(L.kshapes | ksh) != L.kshapes:
                        L.kshapes = norm(L.kshapes | ksh)
                        ch = True
                    if norm(L.shapes | sh) != L.shapes:
                        L.shapes = norm(L.shapes | sh)
                        ch = True
                elif op[0] == 'del':
                    if not L.can_del:
                        L.can_del = True
                        ch = True
                elif op[0] == 'layer':
                    if norm(L.shapes | op[1].shapes) != L.shapes:
                        L.shapes = norm(L.shapes | op[1].shapes)
                        ch = True
                    if norm(L.kshapes | op[1].kshapes) != L.kshapes:
                        L.kshapes = norm(L.kshapes | op[1].kshapes)
                        ch = True
                    if op[1].can_del and not L.can_del:
                        L.can_del = True
                        ch = True
                else:
                    L.can_del = True
                for j, k in enumerate(ks):
                    if j in L.notkept:
                        continue
                    if op[0] in ('set', 'del'):
                        ok = provably_ne(op[1], k)
                    elif op[0] == 'layer':
                        ok = any(definitely_eq(k, q) for q in op[1].kept)
                    else:
                        ok = False
                    if not ok:
                        L.notkept = L.notkept | {j}
                        ch = True
            if first:
                ch = True
            return ch
        if L.kind == 'bytes':
            base = old if first else ent[1]
            moved = rest_moved(base, new)
            if first and moved:
                L.affine, L.prefix = moved, False
                return True
            if L.affine is not None:
                if moved == L.affine:
                    return False
                L.affine = None
                return True
            bp, np_ = list(core.bparts(base)), list(core.bparts(new))
            ok = len(np_) >= len(bp) and all(a is b or (isinstance(a, bytes) and isinstance(b, bytes) and (b == a or (j == len(bp) - 1 and b.startswith(a))))
                                             for j, (a, b) in enumerate(zip(bp, np_)))
            if not ok and L.prefix:
                L.prefix = False
                ch = True
            return ch or first
        # scalar
        if not first and self.same_val(ent[1], new) and not (self.touched and isinstance(new, (VAny, Heap))):
            # unchanged in this step: still described, except that an affine location must move
            if L.affine not in (None, 0) or L.pos is not None:
                L.affine = L.pos = None
                if not isinstance(new, VAny) and core.is_numeric(new):
                    self._init_bounds(L, ent[0], new)
                return True
            return False
        e = old if first else ent[0]
        if isinstance(new, VAny) and not new.done and new is not old:
            new = force(new)
        ne = force(new) if not isinstance(new, VAny) or new.done else new
        num = core.is_numeric(ne) and not isinstance(ne, (bool, SBool)) if not isinstance(ne, VAny) else False
        oe = old
        if isinstance(oe, VAny) and oe.done:
            oe = force(oe)
        onum = not isinstance(oe, VAny) and core.is_numeric(oe) and not isinstance(oe, (bool, SBool))
        enum = not isinstance(e, VAny) and core.is_numeric(e) and not isinstance(e, (bool, SBool))
        sh = shape(ne, start)
        if first:
            L.shapes = norm({sh})
            if num and onum and enum:
                d = core.binop('-', ne, oe)
                if not core.is_sym(d):
                    L.affine = d
                else:
                    c = z3.simplify(d.t)
                    if z3.is_int_value(c):
                        L.affine = c.as_long()
            if not num and not isinstance(ne, VAny) and not isinstance(oe, VAny):
                L.affine = rest_moved(oe, ne)
            if num and L.affine is None:
                L.pos = self.moves_along(e, oe, ne)
            if num and L.affine is None and L.pos is None:
                self._init_bounds(L, e, ne)
            self._init_absent(L, ne)
            return True
        if norm(L.shapes | {sh}) != L.shapes:
            L.shapes = norm(L.shapes | {sh})
            ch = True
        if L.affine is not None:
            ok = False
            if num and onum:
                d = core.binop('-', ne, oe)
                dt = (real_term(d) if is_realish(d) else int_term(d)) if not (not core.is_sym(d)) else None
                if dt is None:
                    ok = d == L.affine
                else:
                    ok = ctx.must(dt == L.affine)
            elif not num and not isinstance(ne, VAny) and not isinstance(oe, VAny):
                ok = rest_moved(oe, ne) == L.affine
            if not ok:
                L.affine = None
                if num:
                    self._init_bounds(L, e, ne)
                ch = True
        elif L.pos is not None:
            if not (num and onum and self.moves_along(e, oe, ne, L.pos) is not None):
                L.pos = None
                if num:
                    self._init_bounds(L, e, ne)
                ch = True
        elif num:
            t = real_term(ne) if is_realish(ne) else int_term(ne)
            for b in list(L.bounds):
                if not ctx.must(bound_term(b, t)):
                    L.bounds = L.bounds - {b}
                    ch = True
            if enum:
                et = real_term(e) if is_realish(ne) else (int_term(e) if not is_realish(e) else real_term(e))
                tt = z3.ToReal(t) if is_realish(e) and not is_realish(ne) else t
                for r in list(L.rel):
                    if r not in ('ge', 'le'):
                        continue
                    if not ctx.must(tt >= et if r == 'ge' else tt <= et):
                        L.rel = L.rel - {r}
                        ch = True
            elif L.rel & {'ge', 'le'}:
                L.rel = L.rel - {'ge', 'le'}
                ch = True
        if isinstance(ne, VDict):
            for r in list(L.rel):
                if isinstance(r, tuple) and r[0] == 'absent' and not self.absent(ne, ctx.interest[r[1]]):
                    L.rel = L.rel - {r}
                    ch = True
        return ch

    def moves_along(self, e, old, new, seq=None):
        """the sequence of records by whose next one a number moved (the given one, or any); None: by none"""
        if any(isinstance(x, VAny) or isinstance(x, (bool, SBool)) or not core.is_intish(x) for x in (e, old, new)):
            return None
        for q in self.ctx.packed:
            if seq is None or q.no == seq:
                if self.ctx.must(int_term(new) - int_term(old) == q.pos(z3.simplify(self.i + 1)) - q.pos(self.i)):
                    return q.no
        return None

    def _known_from(self, ctx, d, ops):
        x = VDict.__new__(VDict)
        x.base, x.ops, x.birth, x.cls = d.base, ops, d.birth, d.cls
        return known_keys(ctx, x, self.marks)

    def _init_bounds(self, L, e, ne):
        ctx = self.ctx
        fe = e
        if isinstance(e, VAny) or not core.is_numeric(e):
            fe = None
        t = real_term(ne) if is_realish(ne) else int_term(ne)
        bs = set()
        for b in INT_BOUNDS:
            if ctx.must(bound_term(b, t)):
                if fe is not None and not ctx.must(bound_term(b, real_term(fe) if is_realish(fe) else int_term(fe))):
                    continue
                bs.add(b)
        L.bounds = frozenset(bs)
        if fe is not None:
            rel = set()
            et = real_term(fe) if (is_realish(ne) or is_realish(fe)) else int_term(fe)
            tt = real_term(ne) if is_realish(fe) else t
            if ctx.must(tt >= et):
                rel.add('ge')
            if ctx.must(tt <= et):
                rel.add('le')
            L.rel = L.rel | frozenset(rel)

    def _init_absent(self, L, ne):
        if isinstance(ne, VDict):
            L.rel = L.rel | frozenset(('absent', j) for j, q in enumerate(self.ctx.interest) if self.absent(ne, q))

    def absent(self, d, q):
        """provably q not in d"""
        for op in reversed(d.ops):
            if op[0] == 'set':
                if not provably_ne(op[1], q):
                    return False
            elif op[0] == 'del':
                if definitely_eq(op[1], q):
                    return True
            elif op[0] == 'clear':
                return True
            else:
                if not any(definitely_eq(q, k) for k in op[1].kept):
                    return False
        if d.base is None:
            return True
        for k, _ in d.base.entries:
            if not provably_ne(k, q):
                return False
        if d.base.m is None:
            return True
        for k in d.base.absent:
            if definitely_eq(k, q):
                return True
        if d.base.ok is not None:
            c = d.base.ok(q)
            if c is False or (c is not True and not self.ctx.may(bterm(c))):
                return True
        return False


def get_abs(ctx, key, site):
    """the abstraction of this phase so far"""
    A = ctx.explorer.loop_abs.get(key)
    if A is None:
        A = ctx.explorer.loop_abs[key] = Abs()
    return A


def dead_names(site, env):
    if env is None:
        return ()
    if isinstance(site, tuple):
        return env.names
    fn = getattr(env, 'node', None)
    return live.dead(fn, getattr(site, 'orig', site)) if fn is not None else ()


def run_others(I, gen, body, site, count=None, env=None):
    """a phase of any number of other elements.  Returns normally for 'phase over'."""
    ctx = I.ctx
    if count is not None and not isinstance(count, int) and not ctx.may(int_term(count) >= 1):
        return
    if isinstance(count, int) and count == 0:
        return
    P = Phase(I, gen, body, site, count)
    P.env, P.dead = env, dead_names(site, env)
    ctx.phase_no += 1
    key0 = (tuple(ctx.decisions), ctx.phase_no)
    decide_eager(ctx, key0)
    key = (tuple(ctx.decisions), ctx.phase_no)
    A = get_abs(ctx, key, site)
    ctx.explorer.loop_phases += 1
    # candidate relations that hold on entry
    cands = [c for j, c in enumerate(ctx.cands) if j not in A.dropped and _cand_holds(c)]
    ctx.register(None)
    start = len(ctx.objects)
    i = ctx.fresh('iter', z3.IntSort())
    ctx.add(i >= 0)
    P.start = start
    P.marks = list_marks(ctx)
    entry = P.havoc(A, i)
    P.first, P.stamp, P.nforced = len(ctx.objects), ctx.wstamp, len(ctx.forced)
    for c in cands:
        v = c()
        if v is not True:
            ctx.add(bterm(v))
    if ctx.choose(2, 'loop') == 0:
        if count is not None:
            ctx.assume(i < int_term(count))
        nlate = len(ctx.late)
        elem = gen(i)
        ctx.assume_feasible()
        W = Watch(len(ctx.objects))
        # objects made by gen belong to the element: watched as the others' own state
        W.start = start
        ctx.watchers.append(W)
        ctx.explorer.step_depth += 1
        try:
            try:
                body(elem)
                store_late(ctx, nlate)
            finally:
                ctx.watchers.remove(W)
        except (PyRaise, core.Control):
            raise
        ctx.explorer.loop_steps += 1
        check_forced(ctx, key0, P.nforced, start)
        changed = P.check(A, W, entry, i)
        for j, c in enumerate(ctx.cands):
            if c in cands and not _cand_holds(c):
                A.dropped.add(j)
                changed = True
        check_inv(ctx)
        if changed:
            raise Restart(list(key[0]), key[1])
        raise PathDone()
    if count is not None:
        ctx.add(i == int_term(count))
    else:
        pass


def decide_eager(ctx, key):
    for m in sorted(ctx.explorer.eager.get(key, ())):
        if m in ctx.vanys and not ctx.vanys[m].done:
            ctx.vanys[m].get()


def check_forced(ctx, key0, n0, start):
    """a value from before the step that was decided in the step and then changed in place: it has to be decided before the phase"""
    for v in ctx.forced[n0:]:
        b0, b1, st = v.born
        if v.made < start and any(ctx.wlast.get(b, 0) > st for b in range(b0, b1)):
            es = ctx.explorer.eager.setdefault(key0, set())
            if v.made in es:
                raise Unsupported('a value decided in a loop step was changed in place')
            es.add(v.made)
            raise Restart(list(key0[0]), key0[1] - 1)


def check_inv(ctx):
    """objects with a declared invariant must still satisfy it at the end of a step"""
    for o in ctx.objects:
        if isinstance(o, VObj) and o.inv is not None:
            for nm, c in o.inv(o):
                ctx.explorer.obligation(ctx, 'object invariant ' + nm, c)


def _cand_holds(c):
    try:
        v = c()
    except Unsupported:
        return False
    return provably(v)


def countable(test):
    """a test of names, their lengths and constants"""
    return any(isinstance(n, ast.Name) for n in ast.walk(test)) and all(
        isinstance(n, (ast.Name, ast.Load, ast.Constant, ast.Compare, ast.cmpop, ast.UnaryOp, ast.Not, ast.BoolOp, ast.boolop, ast.BinOp, ast.operator,
                       ast.USub)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' for n in ast.walk(test))


def decided(I, test, env, flags=False):
    """are all the names of the test known lists or numbers?"""
    for n in ast.walk(test):
        if isinstance(n, ast.Name) and n.id != 'len':
            v = I.lookup(n.id, env)
            if isinstance(v, VAny) and not v.done:
                return False
            v = force(v)
            if not (isinstance(v, (str, bytes, tuple)) or isinstance(v, int) and (flags or not isinstance(v, bool)) or
                    isinstance(v, VList) and not any(isinstance(p, Seg) for p in v.parts) or isinstance(v, VDict) and v.simple()):
                return False
    return True


def test_bound(I, test, env):
    """'while a < b': a function giving a <= b (or None), if that holds now"""
    ctx = I.ctx
    no = isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not)
    if no:
        test = test.operand
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and
            isinstance(test.ops[0], (ast.GtE, ast.LtE, ast.Eq) if no else (ast.Lt, ast.Gt, ast.NotEq))):
        return None

    def side(e):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id != 'len':
                v = I.lookup(n.id, env)
                if isinstance(v, VAny) and not v.done:
                    return None
                v = force(v)
                if not (isinstance(v, (VList, LazySeq)) or core.is_intish(v) and not isinstance(v, (bool, SBool))):
                    return None
        v = force(I.ev(e, env))
        return int_term(v) if core.is_intish(v) else None

    def bound():
        a, b = side(test.left), side(test.comparators[0])
        if a is None or b is None:
            return None
        return a >= b if isinstance(test.ops[0], (ast.Gt, ast.LtE)) else a <= b
    t = bound()
    return bound if t is not None and ctx.must(t) else None


WHILE = {}


def as_test(s):
    """'while True: if T: break; ...' as 'while not T: ...'"""
    if id(s) not in WHILE:
        r, b = s, s.body[0]
        if (isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and isinstance(b, ast.If) and not b.orelse and
                len(b.body) == 1 and isinstance(b.body[0], ast.Break)):
            t = ast.UnaryOp(ast.Not(), b.test)
            if isinstance(b.test, ast.Compare) and len(b.test.ops) == 1 and isinstance(b.test.ops[0], ast.Eq):
                t = ast.Compare(b.test.left, [ast.NotEq()], b.test.comparators)
            r = ast.copy_location(ast.While(ast.copy_location(t, b.test), s.body[1:] or [ast.copy_location(ast.Pass(), s)], []), s)
            r.orig = s
        WHILE[id(s)] = (s, r)
    return WHILE[id(s)][1]


def run_while(I, s, env):
    """while loop: one phase of any number of iterations"""
    s = as_test(s)
    from .interp import BreakSignal, ContinueSignal
    ctx = I.ctx

    class Done(Exception):
        pass

    def gen(i):
        return None

    def body(_):
        if not truth(I.ev(s.test, env)):
            raise Done()
        try:
            I.block(s.body, env)
        except ContinueSignal:
            pass
    # loops over concrete state are unrolled as long as the test is concretely decided
    simple = countable(s.test)
    asked = ctx.explorer.while_unroll.get((env.fname.split('.')[-1], None))
    lim = (8 if simple else 0) if asked is None else asked
    for _ in range(lim):
        if simple and not decided(I, s.test, env, asked is not None):
            break       # the test is evaluated again below
        t = I.ev(s.test, env)
        if not truth(t):
            return
        try:
            I.block(s.body, env)
        except ContinueSignal:
            pass
    def phase(limit):
        P = Phase(I, gen, body, s, None)
        P.env, P.dead = env, dead_names(s, env)
        ctx.phase_no += 1
        key0 = (tuple(ctx.decisions), ctx.phase_no)
        decide_eager(ctx, key0)
        key = (tuple(ctx.decisions), ctx.phase_no)
        A = get_abs(ctx, key, s)
        ctx.explorer.loop_phases += 1
        cands = [c for j, c in enumerate(ctx.cands) if j not in A.dropped and _cand_holds(c)]
        upto = test_bound(I, s.test, env) if simple else None
        ctx.register(None)
        start = len(ctx.objects)
        i = ctx.fresh('iter', z3.IntSort())
        ctx.add(i >= 0)
        P.start = start
        P.marks = list_marks(ctx)
        entry = P.havoc(A, i)
        P.first, P.stamp, P.nforced = len(ctx.objects), ctx.wstamp, len(ctx.forced)
        for c in cands:
            v = c()
            if v is not True:
                ctx.add(bterm(v))
        if upto and A.upto:
            t = upto()
            if t is None:
                A.upto = False
            else:
                ctx.add(t)
        if limit is not None:
            if ctx.choose(2, 'loop') == 1:
                ctx.assume(i == int_term(limit))
                return True
            ctx.assume(i < int_term(limit))
        # one pass from an arbitrary loop head: either the test fails (real exit), or the body runs once
        nlate = len(ctx.late)
        W = Watch(start)
        ctx.watchers.append(W)
        try:
            try:
                body(None)
                store_late(ctx, nlate)
            finally:
                ctx.watchers.remove(W)
        except Done:
            return False
        ctx.explorer.loop_steps += 1
        check_forced(ctx, key0, P.nforced, start)
        changed = P.check(A, W, entry, i)
        for j, c in enumerate(ctx.cands):
            if c in cands and not _cand_holds(c):
                A.dropped.add(j)
                changed = True
        if upto and A.upto:
            t = upto()
            if t is None or not ctx.must(t):
                A.upto, changed = False, True
        check_inv(ctx)
        if changed:
            raise Restart(list(key[0]), key[1])
        raise PathDone()

    # cut at a round: up to there, that round, the rest
    for total, cut in ctx.splits[:1]:
        if not phase(cut):
            return
        try:
            body(None)
        except Done:
            return
        if not phase(core.binop('-', core.binop('-', total, cut), 1)):
            return
    phase(None)
