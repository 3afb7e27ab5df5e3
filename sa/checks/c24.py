"""C24: network access is limited to the log server and always bounded in time."""
from ..programs import *

RULE = ('External-call effect analysis: every entry point of the package is interpreted abstractly with a symbolic link and time limit; each network '
        'request met has its address and time limit compared, as values, with the fixed log address plus the log id of the link and with the time '
        'limit the caller gave; no request may be met on the ways that read files, convert or analyse. Every use of a networking function '
        'anywhere in the package has to be one of the requests met.')

ASSUMPTIONS = ['networking happens through the named functions of the standard library and requests; reading a table or an XML file given by path is no request']

NET = ('requests.', 'urllib.request.', 'urllib3.', 'socket.', 'http.client.', 'ftplib.', 'smtplib.', 'telnetlib.', 'aiohttp.', 'httpx.', 'xmlrpc.',
       'asyncio.open_connection', 'webbrowser.', 'poplib.', 'imaplib.', 'nntplib.')
HARMLESS = ('requests.exceptions', 'requests.Session', 'requests.session', 'requests.adapters', 'requests.utils', 'requests.compat', 'requests.structures',
            'requests.RequestException', 'requests.Timeout', 'requests.ConnectionError', 'requests.HTTPError', 'requests.Response', 'requests.codes',
            'urllib3.util', 'urllib3.exceptions', 'socket.timeout', 'socket.error', 'socket.gaierror', 'requests.Request', 'requests.models')
VERBS = ('get', 'post', 'put', 'head', 'delete', 'patch', 'options', 'request', 'send', 'urlopen', 'connect', 'open')
ADDRESS = 'http://e.mjv.jp/0/log/?'


def is_net(name):
    return name.startswith(NET) and not name.startswith(HARMLESS)


def requests_of(p):
    out = []
    for d in p.calls.all:
        n = d['name']
        if is_net(n):
            out.append(d)
        elif n.startswith('.') and n[1:] in VERBS and d.get('recv') is not None:
            r = d['recv']
            while type(r) is Term and r.op in ('attr', 'enter'):
                r = r.args[0]
            if type(r) is Term and r.op == 'ext' and str(r.args[0]).strip("'").startswith(NET):
                out.append(d)
            elif type(r) is Bi and r.name.startswith(NET):
                out.append(d)
    return out


def run(rep):
    S = Session(rep)
    met = set()
    for const in (False, True):
        for p in run_all(S, rep, entries(S, const)):
            rs = requests_of(p)
            rep.decide(True if rs else None, p.name + ': downloads', '', 'no request met')
            for d in rs:
                met.add(node_key(S, d['node']))
                judge(S, rep, p, d, const)
    for p in run_all(S, rep, offline(S)):
        rs = requests_of(p)
        for d in rs:
            met.add(node_key(S, d['node']))
            rep.bad('%s: no request' % p.name, '%s %s' % (S.loc(d['node']), stack_of(d)), '%s is called' % d['name'])
        if not rs:
            rep.ok('%s: no request' % p.name)
    for r in external_names(S):
        if is_net(r.name) and r.call is not None:
            rep.decide((r.path, r.call.lineno) in met or (r.path, r.node.lineno) in met, 'request at %s is the download' % r.where(), r.where(),
                       '%s is called outside the download of a log' % r.name)
        elif is_net(r.name) and r.name.count('.') and r.name.rsplit('.', 1)[1] in VERBS:
            rep.decide(None, 'function %s at %s' % (r.name, r.where()), r.where(), 'passed around')


def judge(S, rep, p, d, const):
    st = d['st']
    at = '%s %s' % (S.loc(d['node']), stack_of(d))
    n = d['name'].rsplit('.', 1)[1]
    gets = n in ('get', 'urlopen') or n == 'request' and const_text(S.I, st, argument(d, 0, 'method') or NONE) in ('GET', 'get')
    rep.decide(True if gets else (False if n in VERBS else None), p.name + ': only reads', at, '%s is called' % d['name'])
    url = argument(d, 1 if n == 'request' else 0, 'url')
    if url is None:
        rep.undecided(p.name + ': address', at, 'no address')
    else:
        rep.decide(address(st, st.simp(url), const), p.name + ': address', at, 'the address is %r' % (st.simp(url),))
    for more in ('proxies', 'params', 'data'):
        x = d['kwargs'].get(more)
        rep.decide(True if x is None or st.simp(x) == NONE else None, '%s: no %s' % (p.name, more), at, '')
    if n == 'get' and not d['name'].startswith('.') or n == 'get':
        t = d['kwargs'].get('timeout')
    else:
        t = argument(d, 2, 'timeout')
    rep.decide(limit(st, t, p), p.name + ': time limit', at, 'there is none' if t is None else 'it is %r' % (st.simp(t),))


def limit(st, t, p):
    if t is None:
        return False
    t = st.simp(t)
    if type(t) is Const:
        if t.v is None or isinstance(t.v, bool) or not isinstance(t.v, (int, float)):
            return False
        if not t.v > 0:
            return False
        return 'without time limit' in p.name or 'program' in p.name
    if type(t) is Tup:
        rs = [limit(st, x, p) for x in t.items]
        return False if False in rs else (None if None in rs else True)
    if t == TIMEOUT:
        return True
    if type(t) is Ite:
        rs = [limit(st, x, p) for x in (t.a, t.b)]
        return True if all(r is True for r in rs) else (False if all(r is False for r in rs) else None)
    return None


def parts(v):
    if type(v) is Term and v.op == 'cat':
        return [y for x in v.args for y in parts(x)]
    return [v]


def address(st, v, const):
    if const:
        if type(v) is not Const:
            return None
        return v.v in (ADDRESS + LOG_ID, 'https' + ADDRESS[4:] + LOG_ID)
    ps = parts(v)
    if type(v) is Const:
        return False
    head = ps[0]
    if type(head) is Const:
        if head.v not in (ADDRESS, 'https' + ADDRESS[4:]):
            return False
    else:
        # the address itself comes from the link
        return False if leaves_of(head) else None
    rest = set()
    for x in ps[1:]:
        rest |= leaves_of(x)
    if rest and rest != {link()}:
        return None
    if any(raw(x) for x in ps[1:]):
        return False
    return True if rest else None


def raw(v):
    """the link itself, not a part of its query"""
    while type(v) is Term and v.op in ('str', 'strip'):
        v = v.args[0]
    return v == link()
