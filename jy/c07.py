"""delta codec (Python): lossless over every history (round trip only)."""
import alphabets as A
from engine import Job, Options
import compressor.delta as delta
from compressor.delta import huffman, header_freq_tables
from ref_delta import Ref, Book, STATIC

CONFIGS = [
    [],
    ['max_entries=1'], ['max_entries=2'], ['max_entries=5'],
    ['max_entries=9'], ['max_entries=40'],
    ['max_byte_size=1'], ['max_byte_size=40'], ['max_byte_size=120'],
    ['max_entries=6', 'max_byte_size=60'],
]


BOOKS = {}


def book(is_req):
    if is_req not in BOOKS:
        table = header_freq_tables.request_freq_table if is_req else \
            header_freq_tables.response_freq_table
        BOOKS[is_req] = Book(huffman.Huffman(table))
    return BOOKS[is_req]


def make(is_request, params):
    return lambda: delta.Processor(Options, is_request, params)


def ref_args(params):
    args = dict(p.split('=') for p in params)
    return dict((k.replace('byte_size', 'bytes'), int(v))
                for k, v in args.items())


def ref_maker(is_req, params):
    args = ref_args(params)
    return lambda: Ref(book(is_req), **args)


def jobs(tier, maker=None):
    out = []
    t = tier == 'thorough'

    def add(what, is_req, params, al, depth, **kw):
        side = 'req' if is_req else 'res'
        out.append(Job('%s %s/%s' % (what, side, ','.join(params)),
                       make(is_req, params), al, depth,
                       monitor=maker and maker(is_req, params), **kw))

    for params in CONFIGS:
        for is_req in (True, False):
            al = A.requests() if is_req else A.responses()
            add('tree', is_req, params, al, (4 if t else 3) if is_req else 2)
            add('tiny tree', is_req, params, A.tiny()[:5] + [A.far()],
                (5 if t else 3) if is_req else 2)
            if is_req and not t and 'max_' in ' '.join(params):
                add('more tiny tree', is_req, params,
                    A.tiny()[:5] + [A.far()], 4)
            add('tiny windows', is_req, params,
                A.tiny() + [A.far(), A.many(9)],
                (4 if t else 3) if is_req else 2,
                kind='debruijn', mode='split')
            add('batch', is_req, params, al, 3 if t else 2, mode='batch')
            add('repeats', is_req, params, A.repeats() + A.tiny()[:2],
                3 if t else 2, kind='debruijn')
            add('words', is_req, params, A.words(), 3 if t else 2,
                kind='debruijn')
            if is_req:
                add('ranges', is_req, params, A.ranges(), 4 if t else 2)
                add('range windows', is_req, params, A.ranges(),
                    4 if t else 2, kind='debruijn')
                add('shared', is_req, params, A.shared(), 5 if t else 3)
    for params in ([], ['max_entries=100']):
        # more than 256 operations of one kind; more hosts than groups
        big = [(A.fill(n)[0][0], A.H) for n in (255, 256, 257, 300)] + \
            [(dict(('q-%d' % i, 'v') for i in range(n)), A.H)
             for n in (256, 257, 520)] + [({'q-1': 'v'}, A.H)]
        add('many ops', True, params, big, 2)
        hist = [(A.requests()[i % 4][0], 'a.host%d.com' % j)
                for i in range(2) for j in range(260)]
        add('hosts', True, params, [], 0, kind='list', histories=[hist])
    # predefined entries, named and switched on together with stored ones
    full = {}
    for k, v in STATIC:
        full.setdefault(k, []).append(v)
    full = dict((k, '\0'.join(v)) for k, v in full.items())
    for params in ([], ['max_entries=5']):
        add('predefined', True, params, [
            (full, A.H), (dict((k, 'x') for k in full), A.H),
            (dict(list(sorted(full.items()))[::2]), A.H2),
            (dict((k, v) for k, v in full.items() if k[0] != 'i'), A.H)],
            4 if t else 2, kind='debruijn')
        for is_req in (True, False):
            hs = [('octets', A.octets())]
            if is_req:
                hs += [('lengths', A.lengths(20000 if not params else 300))]
                hs += [('big', [A.big(n, c) for n, c in (
                    (65000, 9), (72000, 3), (74000, 90), (150000, 700))])] \
                    if not params else []
            for kind, h in hs:
                add(kind, is_req, params, [], 0, kind='list', histories=h)
    # identifiers are renumbered for every message: run past 2**16
    al = A.fill(300)
    al = (dict(al[0][0], **dict(al[1][0], **al[2][0])), A.H)
    hist = [al] * 230 + A.ranges()[:3] + [al]
    add('renumbering', True, [], [], 0, kind='list', histories=[hist])
    return out
