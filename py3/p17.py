"""http1: each message is one readable HTTP/1 block."""
import itertools
from base import need, norm
import hist
from compressor import format_http1, parse_http1

NAMES = ['a', ':host', 'x-y', 'cookie', ':scheme', 'n1']
VALUES = ['', 'v', 'a b', 'x:y', 'p\0q', ': ', 'a\0', '=; c']


def cases(tier):
    for case in hist.histories(6 if tier == 'thorough' else 5):
        yield 'history', case
    for text in ('', 'OK', 'Not Found', 'a  b', "I'm a Teapot", 'x: y'):
        for ver in ('HTTP/1.0', 'HTTP/1.1', 'http/2.0', 'h2'):
            yield 'top', [ver, text, 0]
            yield 'top', [ver, text, 1]
    for a in hist.LENS:
        for t in (0, 1):
            yield 'history', [['long', a, 1], 0, t]
            yield 'history', [['many', a % 600, 0], 0, t]
    k = 3
    for n in range(k + 1):
        for names in itertools.permutations(range(len(NAMES)), n):
            for vals in itertools.product(range(len(VALUES)), repeat=n):
                for t in (0, 1):
                    yield 'fields', [names, vals, t]


def run_case(job, case, sink):
    if job == 'history':
        codec = hist.make('http1', [], bool(case[2]))
        msgs = hist.messages(case)
        is_req = case[2]
    elif job == 'top':
        ver, text, is_req = case
        codec = hist.make('http1', [], bool(is_req))
        m = {'b': 'x', ':version': ver, 'a': 'y'}
        if is_req:
            m.update({':method': 'get', ':path': '/'})
        else:
            m.update({':status': '404', ':status-text': text or '?'})
        back = codec.decompress(codec.compress(dict(m), 'h'))
        need(back == m, '%r came back as %r', m, back)
        msgs = []
    else:
        names, vals, is_req = case
        codec = hist.make('http1', [], bool(is_req))
        m = {':method': 'get', ':path': '/'} if is_req else {':status': '200'}
        for i, v in zip(names, vals):
            if NAMES[i] == 'cookie' and '\0' in VALUES[v]:
                return 0
            m[NAMES[i]] = VALUES[v]
        if not is_req:
            m.pop(':host', None)
        msgs = [m]
    sink.state((str(case), is_req))
    if job == 'top':
        return 1
    for m in msgs:
        was = dict(m)
        wire = codec.compress(m, 'h')
        need(m == was, 'compress changed its input')
        need(hist.parse_text(wire, is_req) == norm(m), '%r was written as %r',
             m, wire)
        back = codec.decompress(wire)
        got = {k: v for k, v in back.items()
               if k not in (':version', ':status-text')}
        need(norm(got) == norm(m), '%r came back as %r', m, got)
        need(':version' in back and (is_req or ':status-text' in back),
             'fields %r', sorted(back))
    return len(msgs)
