"""shared views of the serializers: what one iteration over a container writes"""
from contracts.common import *
from contracts.fields import nexts, named

SER = '_pydantic_core::serializers::'
T = SER + 'type_serializers::'


class Nested:
    """one nested serialization: value, serializer (None: inferred), include, exclude, extra, result"""

    def __init__(self, p, value, ser, inc, exc, extra, out, json):
        self.value, self.ser, self.inc, self.exc, self.extra, self.out, self.json = value, ser, inc, exc, extra, out, json


def nested_of(p, evs, key_ser=None):
    """the nested serializations of these events, in python or JSON mode"""
    out = []
    for ev in evs:
        a = [p.V(x) for x in ev.args] if ev.args else []
        if ev.name.endswith('::to_python') and len(a) == 5:
            if key_ser is not None and p.holds(a[0].eq(key_ser)):
                continue
            out.append(Nested(p, a[1], a[0], a[2], a[3], a[4], p.V(ev.ret), False))
        elif ev.name.endswith('infer_to_python') and len(a) == 4:
            out.append(Nested(p, a[0], None, a[1], a[2], a[3], p.V(ev.ret), False))
        elif ev.name.endswith(('::serialize_element', '::serialize_entry')):
            s = a[-1]
            if not s.has('include') or not s.has('value'):
                raise Lost('the value written')
            out.append(Nested(p, s.f('value'), s.f('serializer') if s.has('serializer') else None, s.f('include'), s.f('exclude'), s.f('extra'), a[-2] if ev.name.endswith('entry') else None, True))
    return out


def filter_calls(evs):
    return [ev for ev in evs if ev.name.endswith(('::index_filter', '::key_filter'))]


def ref_opt_eq(a, b):
    return AND(a.is_('Some') == b.is_('Some'), IMP(a.is_('Some'), a.as_('Some').t == b.as_('Some').t))


def done_loop(p):
    """events of the iteration the path left the last loop in (None without loop), and whether the loop was exhausted"""
    ls = loops(p)
    if not ls:
        return None, None
    evs = p.st.events[ls[-1][1] + 1:]
    nx = nexts(evs)
    return evs, bool(nx) and p.holds(p.V(nx[0].ret).is_('None'))
