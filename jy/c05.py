"""delta2 codec: lossless over every history, for every documented option
(round trip only)."""
import alphabets as A
from engine import Job, Options
import compressor.delta2 as delta2
from compressor.delta2 import huffman, header_freq_tables
from ref_delta2 import Ref, Book

# parameters -> reference configuration
CONFIGS = [
    ([], {}),
    (['max_byte_size=60'], dict(max_bytes=60)),
    (['max_byte_size=1'], dict(max_bytes=1)),
    (['max_byte_size=0'], dict(max_bytes=0)),
    (['max_entries=0'], dict(max_entries=0)),
    (['max_entries=1'], dict(max_entries=1)),
    (['max_entries=3'], dict(max_entries=3)),
    (['max_entries=8', 'max_byte_size=40'],
     dict(max_entries=8, max_bytes=40)),
    (['small_index=false'], dict(small_index=False)),
    (['varint_encoding=false'], dict(varint=False)),
    (['varint_encoding=false', 'small_index=false', 'max_entries=5'],
     dict(varint=False, small_index=False, max_entries=5)),
    (['hg_adjust=true'], dict(hg_adjust=True)),
    (['hg_adjust=1', 'max_entries=6'], dict(hg_adjust=True, max_entries=6)),
    (['implicit_hg_add=true'], dict(implicit=True)),
    (['implicit_hg_add=t', 'max_entries=5'],
     dict(implicit=True, max_entries=5)),
    (['implicit_hg_add=true', 'hg_adjust=true', 'max_entries=7',
      'max_byte_size=80'],
     dict(implicit=True, hg_adjust=True, max_entries=7, max_bytes=80)),
    (['refcnt_vals=true', 'hg_adjust=true', 'max_entries=7'],
     dict(refcnt=True, hg_adjust=True, max_entries=7)),
    (['only_etoggles=true'], {}),
    (['only_etoggles=true', 'implicit_hg_add=true', 'max_entries=6'],
     dict(implicit=True, max_entries=6)),
    (['idx_from_end=false'], dict(from_end=False)),
    (['idx_from_end=false', 'varint_encoding=false', 'max_entries=4'],
     dict(from_end=False, varint=False, max_entries=4)),
]
BOOKS = {}


def book(is_req):
    if is_req not in BOOKS:
        table = header_freq_tables.request_freq_table if is_req else \
            header_freq_tables.response_freq_table
        BOOKS[is_req] = Book(huffman.Huffman(table))
    return BOOKS[is_req]


def make(is_request, params):
    return lambda: delta2.Processor(Options, is_request, params)


def ref_maker(is_req, params, args):
    return lambda b=book(is_req): Ref(b, **args)


def jobs(tier, monitor=None):
    out = []
    t = tier == 'thorough'
    for params, ref in CONFIGS:
        for is_req in (True, False):
            side = 'req' if is_req else 'res'
            tag = '%s/%s' % (side, ','.join(params))
            mon = monitor and monitor(is_req, params, ref)
            mk = make(is_req, params)
            al = (A.requests() if is_req else A.responses())
            # requests and responses run through the same code: the request
            # side gets the deep trees, the response side the windows
            out.append(Job('tree ' + tag, mk, al, (4 if t else 3) if is_req
                           else 2, monitor=mon))
            out.append(Job('tiny tree ' + tag, mk, A.tiny()[:5] + [A.far()],
                           (5 if t else 3) if is_req else 2, monitor=mon))
            if is_req and not t and 'max_' in ' '.join(params):
                out.append(Job('more tiny tree ' + tag, mk,
                               A.tiny()[:5] + [A.far()], 4, monitor=mon))
            out.append(Job('tiny windows ' + tag, mk,
                           A.tiny() + [A.far(), A.many(9)],
                           (4 if t else 3) if is_req else 2,
                           kind='debruijn', monitor=mon, mode='split'))
            out.append(Job('batch ' + tag, mk, al, 3 if t else 2, mode='batch',
                           monitor=mon))
            out.append(Job('repeats ' + tag, mk, A.repeats() + A.tiny()[:2],
                           3 if t else 2, kind='debruijn', monitor=mon))
            # long toggled ranges, more than 16 operations of one kind, and
            # a table that is full and whose numbering wraps
            if is_req:
                out.append(Job('ranges ' + tag, mk, A.ranges(),
                               4 if t else 2, monitor=mon))
                out.append(Job('range windows ' + tag, mk, A.ranges(),
                               4 if t else 2, kind='debruijn', monitor=mon))
                for n in (180, 200, 383):
                    out.append(Job('wrap %d %s' % (n, tag), mk,
                                   A.ranges()[:4] + [A.fill(3)[0]],
                                   3 if t else 1, monitor=mon,
                                   prelude=A.fill_big(n)))
    for params, ref in (CONFIGS[0], CONFIGS[6], CONFIGS[9]):
        for is_req in (True, False):
            mon = monitor and monitor(is_req, params, ref)
            hs = [('octets', A.octets())]
            if is_req:
                hs += [('lengths', A.lengths(20000 if not params else 300))]
                hs += [('big', [A.big(n, c) for n, c in (
                    (65000, 9), (72000, 3), (74000, 90), (150000, 700))])] \
                    if not params else []
            for kind, h in hs:
                out.append(Job('%s %s/%s' % (
                    kind, 'req' if is_req else 'res', ','.join(params)),
                    make(is_req, params), [], 0, kind='list', histories=h,
                    monitor=mon))
    # more hosts than there are group identifiers
    for params, ref in CONFIGS[:1] + CONFIGS[13:14]:
        mon = monitor and monitor(True, params, ref)
        hist = [(A.requests()[i % 4][0], 'a.host%d.com' % j)
                for i in range(2) for j in range(260)]
        out.append(Job('hosts ' + ','.join(params), make(True, params), [], 0,
                       kind='list', histories=[hist], monitor=mon))
    return out
