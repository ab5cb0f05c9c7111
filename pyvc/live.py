"""names of a function that are dead at the head and after the end of one of its loops: written before they are read in every iteration
and not read elsewhere.  The loop rule needs no invariant for them."""
import ast

_cache = {}


class _Maybe(object):
    def __init__(self):
        self.bad = set()        # names possibly read before they are written


def _loads(node):
    return {n.id for n in ast.walk(node) if isinstance(n, (ast.Name,)) and isinstance(n.ctx, (ast.Load, ast.Del))}


def _stores(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def _reads(m, node, have):
    """an expression: comprehension variables count as reads unless bound by the comprehension itself"""
    bound = set()
    for n in ast.walk(node):
        if isinstance(n, ast.comprehension):
            bound |= _stores(n.target)
    m.bad |= _loads(node) - have - bound


def _block(m, stmts, have):
    """-> names written on every path that reaches the end; None if no path does"""
    have = set(have)
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            _reads(m, s, have)
            return None
        if isinstance(s, ast.If):
            _reads(m, s.test, have)
            a, b = _block(m, s.body, have), _block(m, s.orelse, have)
            if a is None and b is None:
                return None
            have = a & b if a is not None and b is not None else (a if b is None else b)
        elif isinstance(s, (ast.For,)):
            _reads(m, s.iter, have)
            _block(m, s.body, have | _stores(s.target))
            _block(m, s.orelse, have)
        elif isinstance(s, ast.While):
            _reads(m, s.test, have)
            _block(m, s.body, have)
            _block(m, s.orelse, have)
        elif isinstance(s, ast.With):
            for it in s.items:
                _reads(m, it.context_expr, have)
                if it.optional_vars is not None:
                    have |= _stores(it.optional_vars)
            r = _block(m, s.body, have)
            if r is None:
                return None
            have = r
        elif isinstance(s, ast.Try):
            a = _block(m, s.body, have)
            if a is not None:
                a = _block(m, s.orelse, a)
            outs = [a]
            for h in s.handlers:
                if h.type is not None:
                    _reads(m, h.type, have)
                outs.append(_block(m, h.body, have | ({h.name} if h.name else set())))
            outs = [o for o in outs if o is not None]
            r = _block(m, s.finalbody, have)
            if not outs or r is None:
                return None
            x = outs[0]
            for o in outs[1:]:
                x = x & o
            have = x | r
        elif isinstance(s, ast.AugAssign):
            _reads(m, s.value, have)
            if isinstance(s.target, ast.Name):
                if s.target.id not in have:
                    m.bad.add(s.target.id)
            else:
                _reads(m, s.target, have)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is not None:
                _reads(m, s.value, have)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                _reads(m, t, have)
                if s.value is not None:
                    have |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        else:
            _reads(m, s, have)
    return have


def dead(fn, loop):
    """names that need no description at the head of the loop"""
    k = (id(fn), id(loop))
    if k in _cache and _cache[k][0] is fn:
        return _cache[k][2]
    inside = {id(n) for n in ast.walk(loop)}
    if isinstance(loop, ast.For):
        inside -= {id(n) for n in ast.walk(loop.iter)}
        targets = _stores(loop.target)
    else:
        targets = set()
    names = {n.id for n in ast.walk(loop) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    m = _Maybe()
    if isinstance(loop, ast.While):
        _reads(m, loop.test, set())
    _block(m, loop.body, targets)
    live = set(m.bad)
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)) and n is not fn:
            live |= _loads(n)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            live |= set(n.names)
        if isinstance(n, ast.For) and n is not loop and id(loop) not in {id(x) for x in ast.walk(n)} and id(n) not in inside:
            own = _stores(n.target)
            ok = {id(x) for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id in own}
            inside |= ok
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) and id(n) not in inside:
            live.add(n.id)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and id(n.target) not in inside:
            live.add(n.target.id)
    r = frozenset(names - live)
    _cache[k] = (fn, loop, r)
    return r
