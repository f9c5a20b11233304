"""HAR captures to header dictionaries."""
import io
import itertools
import json
import os
import sys
import tempfile
from http.client import responses as IANA
from base import Bad, need
from lib import harfile

SCHEMES = ['http', 'https', 'HTTP', 'Https', 'ftp', 'data', 'ws', 'about',
           'httpx']
HOSTS = ['a.com', 'A.com:8080', 'x.y.co.uk', 'a', '[::1]:80']
PATHS = ['', '/', '/a', '/a/b.html', '/a//b', '/a;p=1', '/http://z.com/q',
         '/%20', '/:']
QUERIES = [None, 'q=1', 'u=http://b.com/c', 'a?b', '/x/y', 'a=1&b=2']
FRAGS = [None, 'f', '/x?y']
GIVEN = [None, 'Host', 'host', 'HOST']
HDRS = [('Accept', 'a'), ('accept', 'b'), ('ACCEPT', 'a'), ('Cookie', 'x=1; y'),
        ('Host', 'h.org'), ('host', 'i.org'), ('X-Y', ''), ('x-y', ' v '),
        ('Set-Cookie', 'a=1; path=/'), ('set-cookie', 'b=2')]
METHODS = ['GET', 'get', 'Post', 'OPTIONS']
VERSIONS = ['HTTP/1.1', 'HTTP/1.0', 'unknown', '']
TEXTS = ['OK', ' ok ', '', '  ', 'Not Found', '\t', 'Very  Odd']
KINDS = ['http://a.com/%d', 'https://b.org/%d?q', 'data:text/plain,%d',
         'ftp://a.com/%d', 'HTTP://C.com/%d', 'about:blank#%d']
STANDARD = {  # the phrases the module promises to know
    200: 'OK', 201: 'Created', 202: 'Accepted',
    203: 'Non-Authoritative Information', 204: 'No Content',
    205: 'Reset Content', 206: 'Partial Content', 207: 'Multi-Status',
    300: 'Multiple Choices', 301: 'Moved Permanently', 302: 'Found',
    303: 'See Other', 304: 'Not Modified', 307: 'Temporary Redirect',
    308: 'Permanent Redirect', 400: 'Bad Request', 401: 'Unauthorized',
    403: 'Forbidden', 404: 'Not Found', 405: 'Method Not Allowed',
    406: 'Not Acceptable', 408: 'Request Timeout', 409: 'Conflict',
    410: 'Gone', 500: 'Internal Server Error'}


def hl(pairs):
    return [{'name': n, 'value': v} for n, v in pairs]


def entry(url, req=(), res=(), method='GET', version='HTTP/1.1', status=200,
          text='OK', rversion='HTTP/1.1'):
    return {'request': {'url': url, 'method': method, 'httpVersion': version,
                        'headers': hl(req)},
            'response': {'status': status, 'statusText': text,
                         'httpVersion': rversion, 'headers': hl(res)}}


def har(entries):
    return {'log': {'entries': entries}}


def fold(pairs):
    out = {}
    for n, v in pairs:
        n = n.lower()
        n = ':host' if n == 'host' else n
        out[n] = out[n] + '\0' + v if n in out else v
    return out


def cases(tier):
    deep = tier == 'thorough'
    for c in itertools.product(SCHEMES, range(len(HOSTS)), range(len(PATHS)),
                               range(len(QUERIES)), range(len(FRAGS)),
                               range(len(GIVEN))):
        yield 'url', c
    for side in ('request', 'response'):
        for n in range(6 if deep else 5):
            for c in itertools.product(range(len(HDRS)), repeat=n):
                yield 'headers', [side, c]
    for m in METHODS:
        for v in VERSIONS:
            for w in VERSIONS:
                yield 'method', [m, v, w]
    for s in list(range(100, 600)) + [0, 999]:
        for form in ('%d', 'int', '%d OK', '%dx', ''):
            for t in range(len(TEXTS)):
                yield 'status', [s, form, t]
    for n in range(7 if deep else 6):
        for c in itertools.product(range(len(KINDS)), repeat=n):
            yield 'entries', c
    for i in range(len(text_of(FILE))):
        yield 'truncated', i
    for i in range(3):
        yield 'file', i


FILE = har([entry('http://a.com/x', [('Accept', 'caf\xe9')], [('Vary', '*')]),
            entry('data:,1'), entry('https://b.com/', status='404', text='')])


def text_of(h, ascii_=True):
    return json.dumps(h, ensure_ascii=ascii_)


def run_case(job, case, sink):
    sink.state((job, json.dumps(case)))
    if job == 'url':
        s, h, p, q, f, g = case
        host, path, query, frag, given = (HOSTS[h], PATHS[p], QUERIES[q],
                                          FRAGS[f], GIVEN[g])
        url = s + '://' + host + path
        url += '?' + query if query is not None else ''
        url += '#' + frag if frag is not None else ''
        req = [('Accept', '*/*')] + ([(given, 'virtual.org')] if given else [])
        rq, rs = harfile.har2hdrs(har([entry(url, req, [('Vary', 'x')])]))
        if s.lower() not in ('http', 'https'):
            need((rq, rs) == ([], []), '%s: an entry of another scheme is '
                 'reported: %r', url, rq)
            return
        need(len(rq) == len(rs) == 1, '%s: %d requests, %d responses', url,
             len(rq), len(rs))
        want = {'accept': '*/*', ':method': 'get', ':scheme': s.lower(),
                ':version': 'HTTP/1.1',
                ':path': (path or '/') + ('?' + query if query else ''),
                ':host': 'virtual.org' if given else host}
        same(url, want, rq[0])
        same(url, {'vary': 'x', ':status': '200', ':status-text': 'OK',
                   ':version': 'HTTP/1.1'}, rs[0])
    elif job == 'headers':
        side, idx = case
        pairs = [HDRS[i] for i in idx]
        e = entry('http://u.com/p', **{'req' if side == 'request' else 'res':
                                       pairs})
        rq, rs = harfile.har2hdrs(har([e]))
        want = fold(pairs)
        if side == 'request':
            want.update({':method': 'get', ':path': '/p', ':scheme': 'http',
                         ':version': 'HTTP/1.1'})
            want.setdefault(':host', 'u.com')
            same(pairs, want, rq[0])
        else:
            want.update({':status': '200', ':status-text': 'OK',
                         ':version': 'HTTP/1.1'})
            same(pairs, want, rs[0])
    elif job == 'method':
        m, v, w = case
        rq, rs = harfile.har2hdrs(har([entry('http://u.com/p', method=m,
                                             version=v, rversion=w)]))
        same(m, {':method': m.lower(), ':path': '/p', ':scheme': 'http',
                 ':version': v, ':host': 'u.com'}, rq[0])
        same(m, {':status': '200', ':status-text': 'OK', ':version': w}, rs[0])
    elif job == 'status':
        s, form, t = case
        status = s if form == 'int' else form % s if '%' in form else form
        rq, rs = harfile.har2hdrs(har([entry('http://u.com/p', status=status,
                                             text=TEXTS[t])]))
        digits = str(s) if form else ''
        got = rs[0]
        need(got.get(':status') == digits, 'status %r becomes %r', status,
             got.get(':status'))
        text = TEXTS[t].strip()
        if text:
            ok = [text]
        elif digits and s in STANDARD:
            ok = [STANDARD[s]]
        else:
            ok = ['unknown', IANA.get(s, 'unknown') if digits else 'unknown']
        need(got.get(':status-text') in ok, 'status %r with text %r: phrase '
             '%r, expected %r', status, TEXTS[t], got.get(':status-text'), ok)
    elif job == 'entries':
        es, want = [], []
        for n, k in enumerate(case):
            es.append(entry(KINDS[k] % n, [('n', str(n))], [('n', 'r%d' % n)]))
            if k in (0, 1, 4):
                want.append(n)
        rq, rs = harfile.har2hdrs(har(es))
        need([h['n'] for h in rq] == [str(n) for n in want],
             'requests %r, expected entries %r', [h['n'] for h in rq], want)
        need([h['n'] for h in rs] == ['r%d' % n for n in want],
             'responses %r, expected entries %r', [h['n'] for h in rs], want)
    elif job in ('truncated', 'file'):
        text = text_of(FILE, ascii_=case != 1)
        if case == 2 and job == 'file':
            text = '\n ' + text + '\n'
        whole = harfile.har2hdrs(json.loads(text))
        fd, path = tempfile.mkstemp(prefix='verif-har-')
        old = sys.stderr
        sys.stderr = err = io.StringIO()
        try:
            with os.fdopen(fd, 'w', encoding='utf-8') as f:
                f.write(text if job == 'file' else text[:case])
            try:
                got = harfile.read_har_file(path)
                code = None
            except SystemExit as e:
                got, code = None, e.code
        finally:
            sys.stderr = old
            os.unlink(path)
        if job == 'file':
            need(code is None and [list(x) for x in got] ==
                 [list(x) for x in whole], 'the file reads as %r (exit %r)',
                 got, code)
            same('file', {'accept': 'caf\xe9', ':method': 'get', ':path': '/x',
                          ':scheme': 'http', ':version': 'HTTP/1.1',
                          ':host': 'a.com'}, got[0][0])
        else:
            need(code == 1, 'a capture cut after %d characters ends with exit '
                 '%r and %r', case, code, got)
            need(path in err.getvalue(), 'the message %r does not name the '
                 'file', err.getvalue())
    else:
        raise Bad('unknown job')


def same(what, want, got):
    if want != got:
        bad = sorted(k for k in set(want) | set(got)
                     if want.get(k) != got.get(k))
        raise Bad('%s: %s' % (what, '; '.join(
            '%s is %r, expected %r' % (k, got.get(k), want.get(k))
            for k in bad)))
