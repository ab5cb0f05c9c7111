"""contracts of functions of the code base, used at call sites in place of the bodies; each is proved by the unit it names"""
import z3

from jaeger_client.thrift_gen.jaeger import ttypes
from pyvc import core
from pyvc.core import VAny, VObj
from pyvc.harness import callee


@callee('jaeger_client.thrift', 'make_tag', 'C21 make_tag_contract')
def make_tag(I, a):
    """for a value of any kind: does not raise, changes nothing, returns a Tag whose key is the key as a string"""
    v = a['value']
    if not isinstance(v, VAny) or v.done or not core.is_str(core.force(a['key'])):
        return NotImplemented
    f = dict.fromkeys(('vStr', 'vDouble', 'vBool', 'vLong', 'vBinary'))
    f.update(key=a['key'], vType=core.Opaque('tag type'))
    return VObj(ttypes.Tag, f)


@callee('jaeger_client.rate_limiter', 'RateLimiter.update', 'C16 new_limit')
def limiter_update(I, a):
    """for any rate, and any maximum while the present one is positive: takes both over, does not raise and touches nothing
    else of the limiter but its balance and time of the last tick"""
    s, rate, mx = a['self'], core.force(a['credits_per_second']), core.force(a['max_balance'])
    if not isinstance(s, VObj) or set(s.fields) != {'credits_per_second', 'max_balance', 'balance', 'last_tick'} or s.inv:
        return NotImplemented
    if not all(core.is_realish(core.force(x)) for x in (rate, mx, *s.fields.values())):
        return NotImplemented
    if not I.ctx.must(core.real_term(s.fields['max_balance']) > 0):
        return NotImplemented
    I.setattr(s, 'credits_per_second', rate)
    I.setattr(s, 'max_balance', mx)
    I.setattr(s, 'balance', core.SReal(I.ctx.fresh('balance', z3.RealSort())))
    I.setattr(s, 'last_tick', core.SReal(I.ctx.fresh('tick', z3.RealSort())))


@callee('jaeger_client.thrift', 'make_jaeger_batch', 'C22 records')
def make_batch(I, a):
    """for a list of numbered items standing for spans: a batch of that process with one record for each of them in order, or any
    exception; changes nothing. The records are represented by the items"""
    l = core.force(a['spans'])
    if not isinstance(l, core.VList) or not all(isinstance(p, (core.Item, core.ItemSeg)) for p in l.parts):
        return NotImplemented
    if I.ctx.choose(2, 'conversion fails') == 1:
        raise core.PyRaise(I.ctx.mk_exc(Exception, ('conversion failed',)))
    return VObj(ttypes.Batch, {'process': a['process'], 'spans': core.VList(list(l.parts))})
