"""http2 codec: lossless over every history (round trip only)."""
import alphabets as A
from engine import Job, Options
import compressor.http2 as http2
import ref_http2


def make(is_request, params):
    return lambda: http2.Processor(Options, is_request, params)


def fits(is_req, size):
    """Entries that just fit, or just do not, besides each number of the
    predefined ones; then a message that refers to all of them."""
    table = [e.split('=', 1) for e in (
        ref_http2.REQUEST if is_req else ref_http2.RESPONSE)]
    later = dict(map(tuple, table))
    if is_req:
        later[':scheme'] = 'http\x00https'
    out = []
    left = 0
    for k in range(len(table), -1, -1):
        if k < len(table):
            left += 32 + len(table[k][0]) + len(table[k][1])
        for d in (-1, 0, 1):
            n = size - left - 32 - 3 + d
            if n < 0:
                continue
            m = {'x-y': 'v' * n}
            out.append([(m, A.H), (dict(m, **later), A.H), (m, A.H),
                        (later, A.H)])
    return out


def jobs(tier, monitor=None):
    out = []
    t = tier == 'thorough'
    for is_req in (True, False):
        side = 'req' if is_req else 'res'
        al = A.requests() if is_req else A.responses()
        # predefined tables are about 1.4 kB: 1500/1600 leave room for a few
        # entries, the others force eviction of everything, or of nothing
        for size in (None, 0, 33, 80, 200, 1450, 1600, 8192):
            params = [] if size is None else ['buffer_size=%d' % size]
            mon = monitor and monitor(is_req, 4096 if size is None else size)
            tag = '%s/%s' % (side, size)
            big = A.sized(al, size)
            mk = make(is_req, params)
            out.append(Job('tree ' + tag, mk, big, 4 if t else 3,
                           monitor=mon))
            if size in (80, 200, 1450, 1600) and not t:
                out.append(Job('more tree ' + tag, mk, big[-7:], 4,
                               monitor=mon))
                out.append(Job('more tiny tree ' + tag, mk, A.tiny(), 5,
                               monitor=mon))
            out.append(Job('batch ' + tag, mk, big, 3 if t else 2,
                           mode='batch', monitor=mon))
            out.append(Job('windows ' + tag, mk, big, 4 if t else 3,
                           kind='debruijn', monitor=mon))
            out.append(Job('fits ' + tag, mk, [], 0, kind='list', monitor=mon,
                           histories=fits(is_req, size or 4096)))
            # small entries that fill, evict and refill the table
            out.append(Job('repeats ' + tag, mk, A.repeats() + A.tiny()[:2],
                           4 if t else 3, kind='debruijn', monitor=mon))
            out.append(Job('tiny tree ' + tag, mk, A.tiny(), 6 if t else 4,
                           monitor=mon))
            out.append(Job('tiny windows ' + tag, mk, A.tiny(), 6 if t else 4,
                           kind='debruijn', monitor=mon, mode='split'))
        # tables of many entries: indices of two and three octets, and the
        # eviction of entries that the message itself refers to
        for size, n in ((None, 70), (8192, 100), (8192, 230), (16384, 420),
                        (65536, 700), (65536, 1900)):
            params = [] if size is None else ['buffer_size=%d' % size]
            mon = monitor and monitor(is_req, 4096 if size is None else size)
            pre = A.fill(n)
            out.append(Job('deep windows %s/%s/%d' % (side, size, n),
                           make(is_req, params),
                           al[:3] + A.reach(n), 2 if t or n < 500 else 1,
                           kind='debruijn', monitor=mon, prelude=pre))
        for size in (None, 0, 1600):
            params = [] if size is None else ['buffer_size=%d' % size]
            mon = monitor and monitor(is_req, 4096 if size is None else size)
            for kind, hs in (('lengths', A.lengths(300 if size else 40000)),
                             ('octets', A.octets())):
                out.append(Job('%s %s/%s' % (kind, side, size),
                               make(is_req, params), [], 0, kind='list',
                               histories=hs, monitor=mon))
    return out
