"""The properties of the command format, their declared types and the tables that go with them."""
from .lib import *

FORMAT = 'mahjong.record.universe.format'
COMMAND = 'mahjong.record.universe.command'
PM = 'mahjong.record.universe.property_manager'
EXEC = 'mahjong.record.universe.executor'


class Prop:
    def __init__(self, scope, name, ref, cls, typ):
        self.scope, self.name, self.ref, self.cls, self.type = scope, name, ref, cls, typ

    def __repr__(self):
        return '%s.%s' % (self.scope, self.name)


def member_name(S, st, v):
    v = st.simp(v)
    o = S.run(lambda I, s: I.get_attr(s, v, 'name', None), st.copy())
    x = o.value
    return x.v if type(x) is Const else None


def members(S, cls):
    """name -> member of an enum class, groups included"""
    o = S.run(lambda I, s: I.get_attr(s, cls, '__members__', None), S.state())
    out = {}
    d = o.st.get(o.value.oid) if type(o.value) is Ref else None
    if d is None:
        return out
    for e in d.data.values():
        out[e.k.v] = o.st.simp(e.v)
    return out


def properties(S):
    """every property of every scope with its declared type"""
    o = S.run(lambda I, s: I.call_method(s, S.g(FORMAT, 'View'), 'registered_view', [], {}, None), S.state())
    out = []
    d = o.st.get(o.value.oid)
    for e in d.data.values():
        scope, cls = o.st.simp(e.k), o.st.simp(e.v)
        sn = member_name(S, o.st, scope)
        q = S.run(lambda I, s: I.call_method(s, cls, 'all_properties', [], {}, None), S.state())
        for v in seq(S, q.st, q.value) or []:
            t = S.run(lambda I, s: I.get_attr(s, v, 'type', None), S.state())
            tn = None
            if not t.raises and not t.dead:
                tn = member_name(S, t.st, t.value)
            out.append(Prop(sn, member_name(S, q.st, v), v, cls, tn))
    return out
