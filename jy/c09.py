"""Huffman coders (Python): complete prefix codes of minimum total length that
decode what they encoded, at any position of a bit stream."""
import heapq
import itertools
import sys
from sink import Bad, Sink, drive, replay_with

MODULES = ['bohe', 'delta', 'delta2', 'delta2_bohe', 'delta_bohe']
CACHE = {}


def load(module, side):
    """-> (code words, encode, decode, bit buffer class, frequencies)"""
    key = module, str(side)
    if key not in CACHE:
        pkg = 'compressor.' + module
        __import__(pkg + '.huffman')
        __import__(pkg + '.bit_bucket')
        __import__(pkg + '.header_freq_tables')
        m = sys.modules
        if side in ('req', 'res'):
            t = m[pkg + '.header_freq_tables']
            table = t.request_freq_table if side == 'req' else \
                t.response_freq_table
        else:
            table = list(enumerate(side))
        h = m[pkg + '.huffman'].Huffman(table)
        if side not in ('req', 'res'):
            return h, m[pkg + '.bit_bucket'].BitBucket, table
        CACHE[key] = h, m[pkg + '.bit_bucket'].BitBucket, table
    return CACHE[key]


def bits(t):
    data, n = t
    return ''.join('{0:08b}'.format(b) for b in data)[:n]


def words(h, n):
    """The code words, off the public encoder (the last symbol is EOF)."""
    out = []
    for s in range(n):
        if s == 256:
            out.append(bits(h.Encode([], True)))
        else:
            out.append(bits(h.Encode([s], False)))
    return out


def optimum(freqs):
    heap = list(freqs)
    heapq.heapify(heap)
    total = 0
    while len(heap) > 1:
        a = heapq.heappop(heap) + heapq.heappop(heap)
        total += a
        heapq.heappush(heap, a)
    return total


def check_code(ws, freqs, slack, limit=None):
    kraft = 0
    top = max(len(w) for w in ws)
    for i, w in enumerate(ws):
        if not w:
            raise Bad('symbol %d has an empty code word' % i)
        kraft += 1 << (top - len(w))
    if kraft != 1 << top:
        raise Bad('the code is not complete: Kraft sum %d/%d' % (
            kraft, 1 << top))
    s = sorted(ws)
    for a, b in zip(s, s[1:]):
        if b.startswith(a):
            raise Bad('code word %s is a prefix of %s' % (a, b))
    if limit and top > limit:
        raise Bad('a code word has %d bits' % top)
    cost = sum(len(w) * f for w, f in zip(ws, freqs))
    if slack is not None and cost > optimum(freqs) + slack:
        raise Bad('total length %d, the minimum is %d' % (
            cost, optimum(freqs)))


def case_table(module, side):
    h, bb, table = load(module, side)
    if [s if type(s) is int else ord(s) for s, f in table] != \
            list(range(257)):
        raise Bad('the frequency table does not cover symbols 0..256')
    # zero frequencies may count for a little
    check_code(words(h, 257), [f for s, f in table], 257)
    return 257


def case_small(module, freqs, slack=0):
    h, bb, table = load(module, freqs)
    n = len(freqs)
    ws = words(h, n)
    check_code(ws, freqs, slack, 32 if slack is None else None)
    for text in ([], [0], list(range(n)), list(range(n))[::-1],
                 [n - 1, 0, n - 1]):
        if not text:
            continue
        b = bb()
        b.StoreBits(h.Encode(text, False))
        k = b.NumBits()
        got = h.DecodeFromBB(b, False, k)
        if got != text:
            raise Bad('%r decodes to %r' % (text, got))
    return n


def case_text(module, side, off, text, mode, tail):
    h, bb, table = load(module, side)
    ws = CACHE.setdefault((module, side, 'w'), None)
    if ws is None:
        ws = CACHE[module, side, 'w'] = words(h, 257)
    b = bb()
    if off:
        b.StoreBits(([0xff], off))
    eof = mode != 'bits'
    h.EncodeToBB(b, text, eof)
    want = ''.join(ws[c] for c in text) + (ws[256] if eof else '')
    if bits(h.Encode(text, eof)) != want:
        raise Bad('Encode is not the concatenation of its code words')
    if bits(b.GetAllBits()) != '1' * off + want:
        raise Bad('EncodeToBB at bit offset %d stored other bits' % off)
    b.StoreBits(([0x9c, 0x35], 11))
    if off:
        b.GetBits(off)
    if mode == 'eof':
        got = h.DecodeFromBB(b, True, 0)
    elif mode == 'both':
        got = h.DecodeFromBB(b, True, len(want))
    else:
        if not text:
            return 0
        got = h.DecodeFromBB(b, False, len(want))
    if got != text:
        raise Bad('%r at bit offset %d decodes to %r (%s)' % (
            text, off, got, mode))
    rest = b.GetBits(11)
    if rest[0][0] != 0x9c or rest[0][1] != 0x20:
        raise Bad('decoding consumed a wrong number of bits (%s)' % mode)
    return 1


def hd():
    if 'hd' not in CACHE:
        import compressor.headerdiff
        from compressor.headerdiff import Huffman
        CACHE['hd'] = Huffman
    return CACHE['hd']


def case_hd_table(side):
    m = hd()
    c = m.request_codec if side == 'req' else m.response_codec
    stats = m.request_stats if side == 'req' else m.response_stats
    freqs = m.normalize_stats(stats)
    if sorted(freqs) != sorted([chr(i) for i in range(256)] + [256]):
        raise Bad('the statistics do not cover every symbol')
    ws = dict((s, '{0:0{1}b}'.format(*v)) for s, v in c.encoder.items())
    if sorted(ws) != sorted(freqs):
        raise Bad('a symbol has no code word')
    keys = sorted(freqs)
    check_code([ws[k] for k in keys], [freqs[k] for k in keys], 0)
    return 257


def case_hd_text(side, text, tail):
    m = hd()
    c = m.request_codec if side == 'req' else m.response_codec
    s = ''.join(chr(x) for x in text)
    data = c.encode(s)
    ws = c.encoder
    want = ''.join('{0:0{1}b}'.format(*ws[k]) for k in list(s) + [256])
    if ''.join('{0:08b}'.format(ord(x)) for x in data) != \
            want + '0' * (-len(want) % 8):
        raise Bad('the encoding is not the sequence of its code words')
    got, used = c.decode(data + '\xa5\x5a' * tail)
    if got != s or used != len(data):
        raise Bad('%r decodes to %r, %d of %d octets used' % (
            s, got, used, len(data)))
    return 1


def run_case(job, case):
    kind = case['kind']
    args = dict((k, v) for k, v in case.items() if k != 'kind')
    return {'table': case_table, 'small': case_small, 'text': case_text,
            'hd table': case_hd_table, 'hd text': case_hd_text}[kind](**args)


def cases(tier):
    deep = tier == 'thorough'
    for side in ('req', 'res'):
        yield 'headerdiff', {'kind': 'hd table', 'side': side}
        for mod in MODULES:
            yield mod, {'kind': 'table', 'module': mod, 'side': side}
    # every small frequency table
    vals = [0, 1, 2, 7, 1000]
    for mod in MODULES:
        for n in range(2, 7 if deep else 6):
            for f in itertools.product(vals, repeat=n):
                yield 'tables ' + mod, {'kind': 'small', 'module': mod,
                                        'freqs': list(f)}
        fib = [1, 1]
        while len(fib) < 30:
            fib.append(fib[-1] + fib[-2])
        for f in (fib, fib[::-1], [1 << i for i in range(30)], [5] * 64):
            yield 'tables ' + mod, {'kind': 'small', 'module': mod,
                                    'freqs': f}
    # skewed tables whose code words have to be limited to 32 bits
    fib = [1, 1]
    while len(fib) < 45:
        fib.append(fib[-1] + fib[-2])
    for f in (fib, fib[::-1], [0, 0, 0] + fib, [1 << i for i in range(40)]):
        yield 'limit delta2', {'kind': 'small', 'module': 'delta2',
                               'freqs': f, 'slack': None}
    # a decoder has no memory beyond its bit position: every symbol after
    # every bit offset, and all short texts over the code lengths
    for mod in MODULES:
        for side in ('req', 'res'):
            for off in range(8):
                for s in range(256):
                    yield 'text ' + mod, {
                        'kind': 'text', 'module': mod, 'side': side,
                        'off': off, 'text': [s],
                        'mode': ('eof', 'bits', 'both')[(s + off) % 3],
                        'tail': 1}
            few = [0, 10, 32, 47, 48, 61, 97, 101, 122, 127, 200, 255]
            for n in (0, 2, 3) if not deep else (0, 2, 3, 4):
                for t in itertools.product(few, repeat=n):
                    yield 'text ' + mod, {
                        'kind': 'text', 'module': mod, 'side': side,
                        'off': (len(t) * 3 + sum(t)) % 8, 'text': list(t),
                        'mode': ('eof', 'bits', 'both')[sum(t) // 3 % 3],
                        'tail': 1}
    for side in ('req', 'res'):
        for n in (0, 1, 2):
            al = range(256) if n < 2 else range(0, 256, 3)
            for t in itertools.product(al, repeat=n):
                yield 'headerdiff', {'kind': 'hd text', 'side': side,
                                     'text': list(t), 'tail': sum(t) % 2}
        for t in itertools.product([0, 10, 48, 61, 97, 101, 255],
                                   repeat=5 if deep else 4):
            yield 'headerdiff', {'kind': 'hd text', 'side': side,
                                 'text': list(t), 'tail': sum(t) % 2}


def run(tier, shard, nshards, out):
    sink = Sink(out, shard, nshards)
    drive(sink, cases(tier), run_case)


def replay(data):
    return replay_with(run_case, data)
