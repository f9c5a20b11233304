"""The comparison of original and decompressed headers."""
import itertools
from base import Bad, need, norm
from lib.processors import Processors

IGNORED = (':version', ':status-text', 'connection')
A = [None, '', '1', '2', '1\x002', '2\x001', ' 1', '1 ', '1\x001', '1;2',
     '2;1', '1\x00', '1; 2\x003']
C = [None, '', 'a', 'a; b', 'b;a', 'a;  b;', 'b', 'a=1; b', 'a\x00b']
X = [None, 'x', 'y']
MIX = [{}, {'a': '1'}, {'b': '1'}, {'a': '1', 'b': '1'}, {'a': '1', 'b': '2'},
       {':status': '200'}, {':status': '200', ':version': 'HTTP/1.1'},
       {':status': '304', ':status-text': 'x'}, {'set-cookie': 'a;b'},
       {'set-cookie': 'b;a'}, {'cookies': 'b;a'}, {'cookie': 'b;a', 'a': '1'},
       {':version': '1', 'a': '1', 'connection': 'x', 'b': '1'},
       {'connection': 'a', 'b': '2', ':status-text': 'y', 'a': '1'},
       {'a': '2', ':version': '2', 'cookie': 'b'},
       {'keep-alive': '1'}, {':host': 'a', 'a': '1'}, {':path': '/'}]


def cases(tier):
    spaces = [('repeated', 'a', A), ('cookie', 'cookie', C)]
    spaces += [('ignored ' + k, k, X) for k in IGNORED]
    spaces += [('other ' + k, k, X) for k in
               (':path', ':host', ':method', ':scheme', ':status', 'referer',
                'set-cookie', 'user-agent', 'keep-alive', 'host', 'version',
                'Connection')]
    for name, key, vals in spaces:
        for a, b in itertools.product(vals, repeat=2):
            yield name, [pair(key, a), pair(key, b)]
    for a, b in itertools.product(A, repeat=2):
        for c, d in itertools.product(C,
                                      repeat=2):
            yield 'together', [dict(pair('a', a), **pair('cookie', c)),
                               dict(pair('a', b), **pair('cookie', d))]
    for a, b in itertools.product(MIX, repeat=2):
        yield 'mixed', [a, b]


def pair(k, v):
    return {} if v is None else {k: v}


def run_case(job, case, sink):
    a, b = case
    sink.state((job, str(case)))
    for as_list in (False, True):
        a0, b0 = dict(a), dict(b)
        text = Processors.compare_headers(a, 'orig', list(b.items())
                                          if as_list else b, 'codec')
        need(a == a0 and b == b0, 'the comparison changed its arguments')
        na = {x for x in norm(a) if x[0] not in IGNORED}
        nb = {x for x in norm(b) if x[0] not in IGNORED}
        if na == nb:
            need(text == '', 'equal headers are reported as %r', text)
            continue
        need(text != '', 'a difference is not reported: %r', (na, nb))
        got, side = {'orig': set(), 'codec': set()}, None
        for line in text.split('\n'):
            if line.startswith('Only found in: '):
                side = line[len('Only found in: '):]
                need(side in got, 'section %r', side)
            else:
                need(side is not None and line.startswith('\t'),
                     'report line %r', line)
                got[side].add(line[1:])
        for s, only in (('orig', na - nb), ('codec', nb - na)):
            want = {'%s: %s' % x for x in only}
            need(got[s] == want, 'only in %s: reported %r, expected %r', s,
                 sorted(got[s]), sorted(want))
    return 2
