"""Text: conversions, formatting, string methods, regular expressions."""
import re
import string
from .values import *
from .state import *


def sleaf(name, kind='text'):
    """leaf text; kind int: decimal digits, dec: decimal number, text: anything
    (never contains a separator such as ',')"""
    return Term('leaf', (name, kind), 'str')


def ileaf(name, rng=None):
    """int(sleaf(name, 'int')) with its range"""
    return Term('int', (sleaf(name, 'int'),), 'int', rng)


def leaf_kind(t):
    if type(t) is Term and t.op == 'leaf' and len(t.args) > 1:
        return t.args[1]
    return None


def strip_float(v):
    """the integer behind float(int text)"""
    if type(v) is Term and v.op == 'tofloat':
        return v.args[0]
    return v


def to_int(I, st, v, node, base=None):
    def one(s, x):
        x = s.resolve(x)
        if type(x) is Const:
            try:
                if base is not None:
                    return Const(int(x.v, base))
                return Const(int(x.v))
            except ValueError as e:
                I.raise_bi(s, 'ValueError', node, str(e))
            except TypeError as e:
                I.raise_bi(s, 'TypeError', node, str(e))
            except OverflowError as e:
                I.raise_bi(s, 'OverflowError', node, str(e))
        if type(x) is Ref:
            o = s.get(x.oid)
            if o.kind == 'inst' and type(o.cls) is Ref:
                m = I.find_user_method(s, x, '__int__') or I.find_user_method(s, x, '__index__')
                if m is not None:
                    return I.call(s, Bound(m, x), [], {}, node)
                if '_value_' in o.attrs and I.is_subclass(s, o.cls, Bi('int')):
                    return o.attrs['_value_']
            if o.kind in ('list', 'dict', 'set', 'func', 'class', 'module') or (o.kind == 'inst' and type(o.cls) is Ref and not I.has_ext_base(s, x)):
                I.raise_bi(s, 'TypeError', node, 'int() argument must be a string or a number')
            return Term('int', (x,), 'int')
        if type(x) is Tup:
            I.raise_bi(s, 'TypeError', node, 'int() argument must be a string or a number, not tuple')
        if type(x) is Term:
            if x.op == 'tofloat':
                return x.args[0]
            if x.ty == 'int':
                return x
            if x.ty == 'bool':
                return ite(x, Const(1), Const(0))
            if x.op == 'str' and ty_of(x.args[0]) == 'int':
                return x.args[0]
            return Term('int', (x,), 'int')
        return Term('int', (x,), 'int')
    return lift1(I, st, v, one)


def to_float(I, st, v, node):
    def one(s, x):
        x = s.resolve(x)
        if type(x) is Const:
            try:
                return Const(float(x.v))
            except ValueError as e:
                I.raise_bi(s, 'ValueError', node, str(e))
            except TypeError as e:
                I.raise_bi(s, 'TypeError', node, str(e))
        if type(x) is Term:
            if leaf_kind(x) == 'int':
                return Term('tofloat', (Term('int', (x,), 'int'),), 'float')
            if x.op == 'str' and ty_of(x.args[0]) == 'int':
                return Term('tofloat', (x.args[0],), 'float')
            if x.op == 'str' and ty_of(x.args[0]) == 'float':
                return x.args[0]
            if x.ty in ('int',):
                return Term('tofloat', (x,), 'float')
            if x.ty == 'float':
                return x
        return Term('float', (x,), 'float')
    return lift1(I, st, v, one)


def lift1(I, st, v, fn):
    v = st.simp(v)
    if type(v) is Ite:
        return I.lift(st, v, fn)
    return fn(st, v)


def to_str(I, st, v, node, how='str'):
    """str(v) / repr(v)"""
    def one(s, x):
        x = s.resolve(x)
        t = type(x)
        if t is Const:
            return Const(str(x.v) if how == 'str' else repr(x.v))
        if t is Term:
            if x.ty == 'str' and how == 'str':
                return x
            return Term(how, (x,), 'str')
        if t is Tup:
            if x.cls is not None:
                raw = I.class_attr(s, x.cls, '__str__' if how == 'str' else '__repr__')
                if type(raw) is Ref:
                    return I.call(s, raw, [x], {}, node)
            parts = [to_str(I, s, y, node, 'repr') for y in x.items]
            if all(type(p) is Const for p in parts) and x.cls is None:
                inner = ', '.join(p.v for p in parts)
                return Const('(' + inner + (',)' if len(parts) == 1 else ')'))
            out = [Const('(')]
            for i, p in enumerate(parts):
                if i:
                    out.append(Const(', '))
                out.append(p)
            out.append(Const(')'))
            return s_cat(out)
        if t is Ref:
            o = s.get(x.oid)
            if o.kind == 'inst' and type(o.cls) is Ref:
                ci = s.get(o.cls.oid).data
                names = ('__str__', '__repr__') if how == 'str' else ('__repr__',)
                for nm in names:
                    m = I.class_attr(s, o.cls, nm)
                    if type(m) is Ref:
                        r = I.call(s, m, [x], {}, node)
                        return check_str(I, s, r, nm, ci.name, node)
                if ci.enum:
                    if o.attrs['_name_'] == NONE:
                        return Term(how, (x,), 'str')
                    return Const('%s.%s' % (ci.name, o.attrs['_name_'].v) if how == 'str' else '<%s.%s: %r>' % (ci.name, o.attrs['_name_'].v, o.attrs['_value_']))
                if type(o.data) is dict:
                    for e in list(o.data.values()):
                        to_str(I, s, e.k, node, 'repr')
                        to_str(I, s, e.v, node, 'repr')
                if I.is_subclass(s, o.cls, Bi('BaseException')) is True:
                    return to_str(I, s, o.attrs.get('args', Tup([])), node)
                if not I.has_ext_base(s, x) and type(o.data) is not dict:
                    I.emit('idstr', st=s, oid=x.oid, node=node)
                return Term(how, (x,), 'str')
            if o.kind == 'list':
                parts = [Const('[')]
                for i, e in enumerate(o.data):
                    if i:
                        parts.append(Const(', '))
                    parts.append(to_str(I, s, e.v, node, 'repr'))
                parts.append(Const(']'))
                if any(e.g or e.many for e in o.data):
                    return Term('strlist', tuple((e.v, e.g) for e in o.data), 'str')
                return s_cat(parts)
            if o.kind in ('dict', 'set') and o.data:
                es = list(o.data.values()) if type(o.data) is dict else (I.set_elems(s, o) or [])
                acc = []
                for e in es:
                    if type(o.data) is dict:
                        acc.append(to_str(I, s, e.k, node, 'repr'))
                    acc.append(to_str(I, s, e.v, node, 'repr'))
                return Term('str' + o.kind, tuple(acc), 'str')
            return Term(how, (x,), 'str')
        return Term(how, (x,), 'str')
    return lift1(I, st, v, one)


def check_str(I, st, r, nm, cname, node):
    def one(s, x):
        t = ty_of(x)
        if t == 'str':
            return x
        if type(x) is Term and t is None:
            return Term('asstr', (x,), 'str')
        if type(x) is Ref and I.has_ext_base(s, x):
            return Term('asstr', (x,), 'str')
        I.raise_bi(s, 'TypeError', node, '%s of %s returned non-string' % (nm, cname))
    return lift1(I, st, r, one)


def fmt_value(I, st, v, conv, spec, node):
    if conv in ('r', 'a'):
        v = to_str(I, st, v, node, 'repr')
    elif conv == 's':
        v = to_str(I, st, v, node)
    if spec == '':
        return to_str(I, st, v, node)

    def one(s, x):
        x = s.resolve(x)
        if type(x) is Const:
            try:
                return Const(format(x.v, spec))
            except (ValueError, TypeError) as e:
                I.raise_bi(s, type(e).__name__, node, str(e))
        k = spec[-1] if spec and spec[-1].isalpha() else ''
        if k and k in 'dxXbo' and ty_of(x) in ('str', 'float', 'NoneType'):
            I.raise_bi(s, 'ValueError', node, 'Unknown format code %r' % k)
        if k and k in 'feg%' and ty_of(x) in ('str', 'NoneType'):
            I.raise_bi(s, 'ValueError', node, 'Unknown format code %r' % k)
        return Term('fmt', (x, spec), 'str')
    return lift1(I, st, v, one)


def cat_values(I, st, parts):
    r = Const('')
    for p in parts:
        r = map_ite2(r, p, lambda a, b: s_cat([a, b]))
    return r


_pct = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?(?P<k>[a-zA-Z%])')


def percent(I, st, tmpl, arg, node):
    """'..' % arg with a constant template"""
    pos = 0
    parts = []
    arg = st.simp(arg)
    args = list(arg.items) if type(arg) is Tup else [arg]
    used = 0
    mapping = False
    for m in _pct.finditer(tmpl):
        if m.start() > pos:
            parts.append(Const(tmpl[pos:m.start()]))
        pos = m.end()
        k = m.group('k')
        if k == '%':
            parts.append(Const('%'))
            continue
        if m.group('key') is not None:
            mapping = True
            v = I.get_item(st, arg, Const(m.group('key')), node)
        else:
            if used >= len(args):
                I.raise_bi(st, 'TypeError', node, 'not enough arguments for format string')
            v = args[used]
            used += 1
        parts.append(pct_one(I, st, v, k, m.group(0), node))
    if pos < len(tmpl):
        parts.append(Const(tmpl[pos:]))
    if used < len(args) and not mapping:
        if not (type(arg) is Ref and st.get(arg.oid).kind in ('dict', 'list') and used == 0 and False):
            I.raise_bi(st, 'TypeError', node, 'not all arguments converted during string formatting')
    return cat_values(I, st, parts)


def pct_one(I, st, v, k, full, node):
    if k in 'sra':
        x = to_str(I, st, v, node, 'str' if k == 's' else 'repr')
        if full != '%' + k:
            return lift1(I, st, x, lambda s, y: Const(full.replace(k, 's') % y.v) if type(y) is Const else Term('fmt', (y, full), 'str'))
        return x

    def one(s, x):
        x = s.resolve(x)
        if type(x) is Const:
            try:
                return Const(full % x.v)
            except (TypeError, ValueError, OverflowError) as e:
                I.raise_bi(s, type(e).__name__, node, str(e))
        t = ty_of(x)
        if t in ('str', 'NoneType', 'tuple') or (type(x) is Ref and s.get(x.oid).kind in ('list', 'dict', 'set')):
            I.raise_bi(s, 'TypeError', node, '%' + k + ' format: a number is required')
        if k in 'di' and full == '%' + k:
            if t == 'int':
                return Term('str', (x,), 'str')
        return Term('fmt', (x, full), 'str')
    return lift1(I, st, v, one)


def str_format(I, st, tmpl, args, kwargs, node):
    parts = []
    auto = 0
    try:
        fields = list(string.Formatter().parse(tmpl))
    except ValueError as e:
        I.raise_bi(st, 'ValueError', node, str(e))
    for lit, field, spec, conv in fields:
        if lit:
            parts.append(Const(lit))
        if field is None:
            continue
        first, rest = re.match(r'([^.\[]*)(.*)', field, re.S).groups()
        if first == '':
            i = auto
            auto += 1
            v = args[i] if i < len(args) and not isinstance(args[i], tuple) else None
        elif first.isdigit():
            i = int(first)
            v = args[i] if i < len(args) and not isinstance(args[i], tuple) else None
        else:
            v = kwargs.get(first)
            i = first
        if v is None:
            if '**' in kwargs or (args and isinstance(args[-1], tuple)):
                v = Term('fmtarg', (Const(first),))
            elif first == '' or first.isdigit():
                I.raise_bi(st, 'IndexError', node, 'Replacement index %s out of range for positional args tuple' % i)
            else:
                I.raise_bi(st, 'KeyError', node, first)
        for m in re.finditer(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
            if m.group(1) is not None:
                v = I.get_attr(st, v, m.group(1), node)
            else:
                g = m.group(2)
                v = I.get_item(st, v, Const(int(g) if g.isdigit() else g), node)
        if spec and '{' in spec:
            sv = str_format(I, st, spec, args[auto:], kwargs, node)
            spec = sv.v if type(sv) is Const else '?'
        parts.append(fmt_value(I, st, v, conv, spec or '', node))
    return cat_values(I, st, parts)


# ---------------------------------------------------------------- methods

PURE = {'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'title', 'capitalize', 'startswith', 'endswith', 'isdigit', 'isalpha',
        'isalnum', 'isnumeric', 'isdecimal', 'isspace', 'replace', 'find', 'rfind', 'index', 'rindex', 'count', 'encode', 'zfill',
        'ljust', 'rjust', 'center', 'swapcase', 'casefold', 'isupper', 'islower', 'isidentifier', 'removeprefix', 'removesuffix', 'expandtabs',
        'decode', 'hex'}
LISTS = {'split', 'rsplit', 'splitlines'}
TUPS = {'partition', 'rpartition'}
NAMES = PURE | LISTS | TUPS | {'join', 'format', 'format_map', 'translate', 'maketrans'}


def split_cat(v, sep, maxsplit=-1):
    """split a cat term at sep; None when a piece may contain sep"""
    parts = v.args if type(v) is Term and v.op == 'cat' else (v,)
    out, cur = [], []
    for p in parts:
        if type(p) is Const:
            bits = p.v.split(sep)
            cur.append(Const(bits[0]))
            for b in bits[1:]:
                out.append(s_cat(cur))
                cur = [Const(b)]
        elif safe_piece(p):
            cur.append(p)
        else:
            return None
    out.append(s_cat(cur))
    return out


def safe_piece(p):
    if type(p) is not Term:
        return False
    return p.op == 'leaf' or (p.op == 'str' and ty_of(p.args[0]) in ('int', 'float')) or p.op in ('urlquoted',)


def str_method(I, st, recv, name, args, kwargs, node):
    """recv: Const str or str-typed Term (not Ite)"""
    if name == 'join':
        return join(I, st, recv, args[0], node)
    if name == 'format':
        if type(recv) is Const:
            return str_format(I, st, recv.v, args, kwargs, node)
        for a in args:
            if not isinstance(a, tuple):
                to_str(I, st, a, node)
        return Term('format', (recv,) + tuple(a for a in args if not isinstance(a, tuple)), 'str')
    args = [st.simp(a) if not isinstance(a, tuple) else a for a in args]
    if any(type(a) is Ite for a in args):
        i = next(k for k, a in enumerate(args) if type(a) is Ite)

        def go(s, x):
            b = list(args)
            b[i] = x
            return str_method(I, s, recv, name, b, kwargs, node)
        return I.lift(st, args[i], go)
    r = st.resolve(recv)
    if type(r) is Const and isinstance(r.v, (str, bytes)):
        vals = [const_of(st, a) for a in args]
        kv = {k: const_of(st, a) for k, a in kwargs.items()}
        if all(x is not NONCONST for x in vals) and all(x is not NONCONST for x in kv.values()):
            if name in PURE or name in LISTS or name in TUPS:
                try:
                    res = getattr(r.v, name)(*vals, **kv)
                except (ValueError, TypeError, UnicodeError, AttributeError) as e:
                    I.raise_bi(st, type(e).__name__ if type(e).__name__ in I.builtins else 'ValueError', node, str(e))
                if isinstance(res, list):
                    return I.new_list(st, [Const(x) for x in res])
                if isinstance(res, tuple):
                    return Tup([Const(x) for x in res])
                return Const(res)
        if name in ('index', 'find') and args and type(args[0]) is Term:
            return Term('strindex', (r, args[0]), 'int', (0, max(0, len(r.v) - 1)))
        if name in ('startswith', 'endswith'):
            return Term(name, (r,) + tuple(args), 'bool')
    if type(recv) is Term:
        if name in LISTS and args and type(args[0]) is Const and len(args) == 1 and not kwargs:
            ps = split_cat(recv, args[0].v)
            if ps is not None:
                return I.new_list(st, ps)
            return Term('split', (recv, args[0]), 'list')
        if name in ('strip', 'lstrip', 'rstrip'):
            if leaf_kind(recv) in ('int', 'dec'):
                return recv
            return Term('strip', (recv,), 'str')
        if name == 'isdigit' and leaf_kind(recv) == 'int':
            return TRUE
        if name in ('startswith', 'endswith') and args and type(args[0]) is Const and isinstance(args[0].v, str):
            if recv.op == 'cat':
                p = recv.args[0] if name == 'startswith' else recv.args[-1]
                if type(p) is Const:
                    if len(p.v) >= len(args[0].v):
                        return Const(getattr(p.v, name)(args[0].v))
                    a, b = (p.v, args[0].v[:len(p.v)]) if name == 'startswith' else (p.v, args[0].v[-len(p.v):])
                    if a != b:
                        return FALSE
        if name == 'replace' and len(args) == 2 and recv.op == 'cat' and all(type(a) is Const for a in args) and len(args[0].v) == 1:
            if all(type(p) is Const or safe_piece(p) for p in recv.args) and args[0].v not in '0123456789.-':
                return s_cat([Const(p.v.replace(args[0].v, args[1].v)) if type(p) is Const else
                              (p if leaf_kind(p) in ('int', 'dec') else Term('m:replace', (p,) + tuple(args), 'str')) for p in recv.args])
    ty = 'bool' if name.startswith('is') or name in ('startswith', 'endswith') else (
        'int' if name in ('find', 'rfind', 'index', 'rindex', 'count') else ('bytes' if name == 'encode' else 'str'))
    if name in LISTS:
        ty = 'list'
    if name in TUPS:
        ty = 'tuple'
    return Term('m:' + name, (recv,) + tuple(a for a in args if not isinstance(a, tuple)), ty)


NONCONST = object()


def const_of(st, a):
    if isinstance(a, tuple):
        return NONCONST
    a = st.resolve(a)
    if type(a) is Const:
        return a.v
    if type(a) is Tup:
        r = tuple(const_of(st, x) for x in a.items)
        return NONCONST if any(x is NONCONST for x in r) else r
    return NONCONST


def join(I, st, sep, it, node):
    es = I.entries(st, it, node)
    if es is None:
        return Term('join', (sep, it if isinstance(it, V) else NONE), 'str')
    for e in es:
        for _, x in alternatives(st.simp(e.v)):
            t = ty_of(x)
            if t is not None and t != 'str' or (type(x) is Ref and not I.has_ext_base(st, x) if type(x) is Ref and st.get(x.oid).kind == 'inst' else type(x) is Ref):
                if not e.g and not e.many:
                    I.raise_bi(st, 'TypeError', node, 'sequence item: expected str instance')
    if any(e.g or e.many for e in es):
        return Term('joinseq', (sep,) + tuple(Tup([e.v, Const(bool(e.many))]) for e in es), 'str')
    parts = []
    for i, e in enumerate(es):
        if i:
            parts.append(sep)
        parts.append(e.v)
    return cat_values(I, st, parts)


# ---------------------------------------------------------------- regex

SAMPLES = (('7', '3'), ('135', '12'), ('0', '40'))


def digits(p):
    """a decimal number without sign, of up to three digits"""
    return leaf_kind(p) == 'int' or type(p) is Term and p.op == 'str' and ty_of(p.args[0]) == 'int' and interval(p.args[0])[0] >= 0


def re_call(I, st, pat, how, subject, node, flags=0):
    """match object Ref / NONE / opaque Term"""
    def one(s, x):
        x = s.resolve(x)
        if type(pat) is not Const or (type(x) is not Const and type(x) is not Term):
            return Term('match', (pat, Const(how), x))
        try:
            rx = re.compile(pat.v, flags)
        except re.error as e:
            I.raise_bi(s, 'ValueError', node, str(e))
        if type(x) is Const:
            if not isinstance(x.v, str):
                I.raise_bi(s, 'TypeError', node, 'expected string or bytes-like object')
            m = getattr(rx, how)(x.v)
            if m is None:
                return NONE
            groups = [m.group(i) for i in range(rx.groups + 1)]
            return s.new(Obj('match', Bi('re.Match'), {}, {
                'groups': [NONE if g is None else Const(g) for g in groups], 'names': dict(rx.groupindex)}, node))
        parts = x.args if x.op == 'cat' else (x,)
        if not all(type(p) is Const or digits(p) for p in parts):
            # unknown text behind a constant prefix
            if how in ('match', 'fullmatch') and type(parts[0]) is Const and parts[0].v:
                pass
            return Term('match', (pat, Const(how), x))
        res = []
        for k in range(len(SAMPLES)):
            txt = ''
            spans = []
            j = 0
            for p in parts:
                b = len(txt)
                if type(p) is Const:
                    txt += p.v
                else:
                    txt += SAMPLES[k][j % 2]
                    j += 1
                spans.append((b, len(txt), p))
            m = getattr(rx, how)(txt)
            if m is None:
                res.append(None)
            else:
                gs = []
                for i in range(rx.groups + 1):
                    a, b = m.span(i)
                    if a < 0:
                        gs.append(NONE)
                        continue
                    out = []
                    ok = True
                    for (pa, pb, p) in spans:
                        lo, hi = max(a, pa), min(b, pb)
                        if lo >= hi:
                            continue
                        if type(p) is Const:
                            out.append(Const(txt[lo:hi]))
                        elif lo == pa and hi == pb:
                            out.append(p)
                        else:
                            ok = False
                    gs.append(s_cat(out) if ok else Term('submatch', (pat, x, Const(i)), 'str'))
                res.append(tuple(gs))
        if all(r is None for r in res):
            return NONE
        if res[0] is not None and all(r == res[0] for r in res):
            return s.new(Obj('match', Bi('re.Match'), {}, {'groups': list(res[0]), 'names': dict(rx.groupindex)}, node))
        return Term('match', (pat, Const(how), x))
    return lift1(I, st, subject, one)


def match_group(I, st, o, args, node):
    d = o.data
    if not args:
        return d['groups'][0]
    out = []
    for a in args:
        a = st.resolve(st.simp(a))
        if type(a) is Const and isinstance(a.v, str):
            i = d['names'].get(a.v)
        elif type(a) is Const:
            i = a.v
        else:
            return Term('group', (a,), 'str')
        if i is None or not 0 <= i < len(d['groups']):
            I.raise_bi(st, 'IndexError', node, 'no such group')
        out.append(d['groups'][i])
    return out[0] if len(out) == 1 else Tup(out)
