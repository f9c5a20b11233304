"""Decoders against every valid encoding, whichever encoder might have made it:
messages are composed directly as operations of the wire format."""
import itertools
import struct
from engine import Failure, Options, norm
from sink import Bad, Sink, drive, replay_with
import compressor.http2 as http2
import compressor.headerdiff as headerdiff
import compressor.delta2 as delta2
import compressor.delta as delta
from compressor.delta2 import huffman as d2huffman, header_freq_tables
import ref_http2
import ref_headerdiff
import ref_delta
import ref_delta2


def integer(first, bits, value):
    top = (1 << bits) - 1
    if value < top:
        return chr(first | value)
    out = chr(first | top) if bits else ''
    value -= top
    while value > 127:
        out += chr(128 | value & 127)
        value >>= 7
    return out + chr(value)


def string(s):
    return integer(0, 0, len(s)) + s


# ---------------------------------------------------------------- http2

class Plain(object):
    def small(self, ref):
        return len(ref.table) < 5

    def moves(self, ref):
        return ([op] for op in self.ops(ref))

    def pairs(self, ref):
        ops = list(self.ops(ref))
        return ([a, b] for a in ops for b in ops)

    def reads(self, ref):
        out = [[]]
        for op in self.ops(ref):
            if op[0] == 'idx' and op[1] < len(ref.table):
                out += [[op], [op]]
        return out


class Http2(Plain):
    # limit, entries added first
    CONFIGS = [(70, 2), (110, 3), (150, 4), (200, 3), (0, 0), (33, 1),
               (4096, 0), (5000, 120)]

    def __init__(self, config, is_req):
        self.limit, self.n = self.CONFIGS[config]
        self.is_req = is_req

    def fresh(self):
        return (http2.Processor(Options, self.is_req,
                                ['buffer_size=%d' % self.limit]),
                ref_http2.Ref(self.is_req, self.limit, True))

    def prelude(self):
        return [[('inc', 'p%d' % i, '1')] for i in range(self.n)]

    def ops(self, ref):
        n = len(ref.table)
        # positions: all of a short table, the interesting ones of a long one
        near = list(range(n + 1)) if n < 6 else \
            [0, 1, n // 2, n - 2, n - 1, n]
        if n > 130:
            near += [126, 127, 128]
        long = 'L' * max(0, self.limit // 2 - 33)
        full = 'F' * max(0, self.limit - 33)
        huge = 'H' * self.limit
        for i in near:
            yield ('idx', i)
        yield ('lit', 'n', '')
        for i in (near[0], near[-1], near[-2] if n else 0):
            yield ('lit', i, 'x')
        for v in ('', long, full, huge):
            yield ('inc', 'b', v)
        for i in (0, near[-2] if n else 0, near[-1]):
            yield ('inc', i, '2')
        for at in near:
            for v in ('', long, full, huge):
                yield ('sub', 'c', at, v)
            for i in (0, near[-1]):
                yield ('sub', i, at, long)

    def wire(self, ops):
        out = ''
        for op in ops:
            kind, x = op[:2]
            if kind == 'idx':
                out += integer(0x80, 7, x)
                continue
            first, bits = {'lit': (0x60, 5), 'inc': (0x40, 5),
                           'sub': (0, 6)}[kind]
            if isinstance(x, int):
                out += integer(first, bits, x + 1)
            else:
                out += integer(first, bits, 0) + string(str(x))
            if kind == 'sub':
                out += integer(0, 0, op[2])
            out += string(str(op[-1]))
        return struct.pack('!HBBL', len(out), 0, 0, 0) + out


# ---------------------------------------------------------------- headerdiff

class HeaderDiff(Plain):
    CONFIGS = [([], 32768, 0, 0), (['buffer=12'], 12, 0, 2),
               (['huffman'], 32768, 1, 1), ([], 32768, 0, 15),
               ([], 32768, 0, 31), ([], 32768, 0, 64)]

    def __init__(self, config, is_req):
        self.params, self.limit, self.huff, self.n = self.CONFIGS[config]
        self.is_req = is_req
        self.coder = None
        if self.huff:
            m = headerdiff.Huffman
            self.coder = m.request_codec if is_req else m.response_codec

    def fresh(self):
        return (headerdiff.Processor(Options, self.is_req, self.params),
                ref_headerdiff.Ref(self.is_req, self.limit, None, self.coder))

    def prelude(self):
        return [[('inc', 'p%d' % i, 'ab%d' % (i % 7))] for i in range(self.n)]

    def ops(self, ref):
        n = len(ref.table)
        near = [i for i in range(n + 1) if n < 4 or i in (
            0, 1, 14, 15, 16, 30, 31, 32, 62, 63, 64, 65, n - 1, n)]
        names = [0, 13, 14, 15, 29, 30, 31, len(ref.names) - 1,
                 len(ref.names)]
        for i in near:
            yield ('idx', i)
        for kind in ('lit', 'inc'):
            yield (kind, 'n', '')
            yield (kind, 'b', 'value')
            for i in names:
                yield (kind, i, 'x')
        for at in near:
            yield ('sub', 'c', at, 'vwx')
            yield ('sub', 'c', at, '')
            yield ('sub', names[3], at, 'y')
            for keep in (0, 1, 3):
                for kind in ('dlit', 'dinc', 'dsub'):
                    yield (kind, at, keep, 'z' * (keep % 2))

    def text(self, s):
        s = str(s)
        if self.coder is not None:
            return self.coder.encode(s)
        return string(s)

    def wire(self, ops):
        out = chr(len(ops))
        for op in ops:
            kind, x = op[:2]
            if kind == 'idx':
                if x < 64:
                    out += chr(0x80 | x)
                else:
                    x -= 64
                    if x < 0x3fff:
                        out += chr(0xc0 | x >> 8) + chr(x & 255)
                continue
            delta = kind[0] == 'd'
            first = {'lit': 0, 'inc': 0x20, 'sub': 0x30}[kind[-3:]]
            bits = 5 if first == 0 else 4
            if delta:
                out += integer(first | 0x40, bits, x) + integer(0, 0, op[2])
            else:
                if isinstance(x, int):
                    out += integer(first, bits, x + 1)
                else:
                    out += integer(first, bits, 0) + self.text(x)
                if kind == 'sub':
                    out += integer(0, 0, op[2])
            out += self.text(op[-1])
        return struct.pack('!HBBL', len(out), 0, 0, 0) + out


# ---------------------------------------------------------------- delta2

def share(cls):
    """The coders are immutable and slow to set up: one for each table."""
    made, real = {}, cls.__init__

    def init(self, table):
        if id(table) not in made:
            real(self, table)
            made[id(table)] = self, table
        self.__dict__ = made[id(table)][0].__dict__
    cls.__init__ = init


share(delta.huffman.Huffman)


class Delta2(object):
    """A message is a list of operations, among them ('gid', n), ('merge',)
    (one opcode octet for operations of one kind) and ('cut', n) (two frames,
    the first with n octets)."""
    CONFIGS = [
        (['max_entries=3'], dict(max_entries=3), 2),
        (['max_entries=8', 'max_byte_size=5'],
         dict(max_entries=8, max_bytes=5), 2),
        (['max_entries=3', 'hg_adjust=true'],
         dict(max_entries=3, hg_adjust=True), 2),
        (['max_entries=3', 'implicit_hg_add=true'],
         dict(max_entries=3, implicit=True), 3),
        (['max_entries=3', 'implicit_hg_add=true', 'hg_adjust=true',
          'refcnt_vals=true'],
         dict(max_entries=3, implicit=True, hg_adjust=True, refcnt=True), 3),
        (['max_entries=3', 'idx_from_end=false', 'varint_encoding=false'],
         dict(max_entries=3, from_end=False, varint=False), 3),
        (['max_entries=2', 'varint_encoding=false', 'small_index=false'],
         dict(max_entries=2, varint=False, small_index=False), 2),
        (['idx_from_end=false'], dict(from_end=False), 9),
        ([], {}, 30),
        (['max_entries=0'], dict(max_entries=0), 1),
    ]
    CODES = dict(stoggl=0, etoggl=1, strang=2, etrang=3, sclone=4, eclone=5,
                 skvsto=6, ekvsto=7)

    def __init__(self, config, is_req):
        self.params, self.args, self.n = self.CONFIGS[config]
        self.is_req = is_req
        t = header_freq_tables
        self.huff = d2huffman.Huffman(t.request_freq_table if is_req else
                                      t.response_freq_table)
        self.book = ref_delta2.Book(self.huff)
        self.cache = {}

    def fresh(self):
        return (delta2.Processor(Options, self.is_req, self.params),
                ref_delta2.Ref(self.book, **self.args))

    def prelude(self):
        n = ref_delta2.NSTATIC
        return [[('skvsto', 'p%d' % i, '%d' % (i % 7))]
                for i in range(self.n)] + [[('stoggl', 0)] + (
                    [('stoggl', n)] if not self.args.get('from_end', True)
                    and self.n and self.args.get('max_entries') else [])]

    def small(self, ref):
        return len(ref.lru) < 4

    def near(self, ref):
        n, s = len(ref.lru), ref_delta2.NSTATIC
        if not ref.from_end:
            q = [e[0] for e in ref.lru]
            return sorted(set(q[:2] + q[-1:] + [0, s - 1]))
        return sorted(set([x for x in (0, 1, 2, n - 1, n, n + 1, n + s - 1)
                           if 0 <= x < n + s] + ([14, 15, 16, 22, 23]
                                                 if n > 20 else [])))

    def ops(self, ref):
        near = self.near(ref)
        for i in near:
            for kind in ('stoggl', 'etoggl'):
                yield (kind, i)
        for i in near:
            for j in near:
                if ref.seqnum(i) >= ref.seqnum(j) >= 0 and \
                        ref.seqnum(i) - ref.seqnum(j) < 70:
                    for kind in ('strang', 'etrang'):
                        yield (kind, i, j)
        for i in (near[0], near[-1]):
            for kind in ('sclone', 'eclone'):
                yield (kind, i, 'v')
        yield ('sclone', near[len(near) // 2], 'long')
        yield ('skvsto', 'a', '')
        yield ('skvsto', 'b', 'longer')
        yield ('ekvsto', 'c', 'w')

    def moves(self, ref):
        for op in self.ops(ref):
            yield [op]
            if op[0] in ('stoggl', 'skvsto', 'sclone'):
                yield [('gid', 2), op]

    def pairs(self, ref):
        ops = list(self.ops(ref))
        for a in ops:
            for b in ops:
                yield [a, b]
                if a[0] == b[0]:
                    yield [('merge',), a, b]
                if a[0] == 'skvsto' or b[0] == 'sclone':
                    for n in (0, 1, 3):
                        yield [('cut', n), a, b]
        # many operations after one opcode octet
        for n in (15, 16):
            for op in ops:
                yield [('merge',)] + [op] * n

    def reads(self, ref):
        yield []
        yield [('gid', 2)]
        for i in self.near(ref):
            yield [('etoggl', i)]

    def text(self, s):
        if s not in self.cache:
            data, n = self.huff.Encode([ord(c) for c in s], True)
            self.cache[s] = ''.join([ref_delta2.BITS[b] for b in data])[:n]
        return self.cache[s]

    def index(self, x):
        if not self.args.get('varint', True):
            n = 8 if self.args.get('small_index', True) else 16
            return ''.join(ref_delta2.BITS[b]
                           for b in (x >> 8, x & 255))[-n:]
        nib = [x] if x < 15 else [15]
        x -= 15
        while x >= 0:
            nib.append(x & 7 | (8 if x > 7 else 0))
            x = (x >> 3) or -1
        return ''.join(ref_delta2.BITS[b][4:] for b in nib)

    def wire(self, ops):
        ops = [(str(op[0]),) + tuple(op[1:]) for op in ops]
        gid, cut, merge = 1, None, False
        while ops and ops[0][0] in ('gid', 'cut', 'merge'):
            if ops[0][0] == 'gid':
                gid = ops[0][1]
            elif ops[0][0] == 'cut':
                cut = ops[0][1]
            else:
                merge = True
            ops = ops[1:]
        bits = ''
        for k, op in enumerate(ops):
            if not merge or not k:
                bits += self.opcode(op[0], len(ops) if merge else 1)
            for x in op[1:]:
                if isinstance(x, int):
                    bits += self.index(x)
                else:
                    bits += self.text(str(x))
                    bits += '0' * (-len(bits) % 8)
        bits += '0' * (-len(bits) % 8)
        data = ''.join(chr(ref_delta2.BYTE[bits[i:i + 8]])
                       for i in range(0, len(bits), 8))
        if cut is None:
            return self.frame(data, 1, gid)
        return self.frame(data[:cut], 0, gid) + self.frame(data[cut:], 1, gid)

    def opcode(self, op, count):
        return ref_delta2.BITS[self.CODES[op] << 4 | count - 1]

    def frame(self, data, last, gid):
        return struct.pack('!HBBLB', len(data), 8, last, 0x8000ffff, gid) + \
            data


# ---------------------------------------------------------------- delta

class Delta(Delta2):
    """As for delta2; entries and names are referred to by number."""
    CONFIGS = [
        (['max_entries=3'], dict(max_entries=3), 2),
        (['max_entries=8', 'max_byte_size=9'],
         dict(max_entries=8, max_bytes=9), 3),
        ([], {}, 4),
    ]
    CODES = dict(toggl=1, trang=2, clone=3, kvsto=4, eref=5)

    def __init__(self, config, is_req):
        Delta2.__init__(self, config, is_req)
        self.huff = delta.huffman.Huffman(
            delta.header_freq_tables.request_freq_table if is_req else
            delta.header_freq_tables.response_freq_table)
        self.book = ref_delta2.Book(self.huff)

    def fresh(self):
        return (delta.Processor(Options, self.is_req, self.params),
                ref_delta.Ref(self.book, **self.args))

    def prelude(self):
        return [[('kvsto', 'p%d' % i, '%d' % (i % 7))]
                for i in range(self.n)] + [
                    [('gid', 2), ('kvsto', 'a', 'q'), ('toggl', 1)]]

    def near(self, ref):
        q = sorted(e.number for e in ref.lru)
        low = [n for n in sorted(ref.table) if n not in q]
        return sorted(set(q[:3] + q[-1:] + low[:1] + low[-1:]))

    def names(self, ref):
        q = sorted(ref.by_name)
        return sorted(set([q[0]] + q[len(q) - 2:] + [q[len(q) // 2]]))

    def ops(self, ref):
        near = self.near(ref)
        for i in near:
            yield ('toggl', i)
        for i in near:
            for j in near:
                if 0 <= i - j < 9:
                    yield ('trang', i, j)
        for n in self.names(ref):
            yield ('clone', n, 'v')
        yield ('clone', n, 'long')
        yield ('clone', n, 'longer than all')
        yield ('kvsto', 'a', '')
        yield ('kvsto', 'b', 'longer')
        yield ('eref', 'a', 'w')

    def moves(self, ref):
        for op in self.ops(ref):
            yield [op]
            yield [('gid', 2), op]

    def pairs(self, ref):
        ops = list(self.ops(ref))
        for a in ops:
            for b in ops:
                yield [a, b]
                if a[0] == b[0]:
                    yield [('merge',), a, b]
                if a[0] == 'kvsto' or b[0] == 'clone':
                    for n in (0, 1, 3):
                        yield [('cut', n), a, b]
        for n in (255, 256):
            yield [('merge',)] + [('eref', 'x%d' % i, '') for i in range(n)]
            yield [('merge',)] + [('kvsto', 'x%d' % i, '') for i in range(n)]

    def reads(self, ref):
        yield []
        yield [('gid', 2)]
        for n in list(ref.names.values())[-4:]:
            yield [('gid', 3), ('clone', n, 'zz')]

    def index(self, x):
        return ''.join(ref_delta2.BITS[b] for b in (x >> 8, x & 255))

    def opcode(self, op, count):
        return ref_delta2.BITS[self.CODES[op]] + ref_delta2.BITS[count - 1]

    def frame(self, data, last, gid):
        return struct.pack('!HBLBB', len(data), last, 0x8000ffff, 8, gid) + \
            data


FORMATS = {'http2': Http2, 'headerdiff': HeaderDiff, 'delta2': Delta2,
           'delta': Delta}
FORMAT = {}


def fmt(name, config, is_req):
    key = (name, config, is_req)
    if key not in FORMAT:
        FORMAT[key] = FORMATS[name](config, is_req)
    return FORMAT[key]


def both(f, messages):
    """None when the reference says that the last message is not valid, else
    the state of the reference after it and its moves. All the table is read
    afterwards. Raises Bad when the decoder differs."""
    codec, ref = f.fresh()
    todo = list(messages)
    after = None
    k = 0
    while k < len(todo):
        wire = f.wire(todo[k])
        k += 1
        try:
            want = ref.step(wire)
        except Failure:
            if k != len(messages):
                raise
            return None
        try:
            got = codec.decompress(wire)
        except Failure, e:
            raise Bad('valid encoding %r is rejected: %s: %s' % (
                shorter(todo[:k]), type(e).__name__, e))
        if norm(got) != norm(want):
            raise Bad('%r was decoded as %r, expected %r' % (
                shorter(todo[:k]), short(got), short(want)))
        if k == len(messages):
            after = ref.state(), list(f.moves(ref))
            # (read without lasting effect)
            todo += f.reads(ref)
    return after


def short(d):
    return sorted((k, v[:12]) for k, v in norm(d))


def shorter(messages):
    return [[tuple(x[:8] if isinstance(x, (str, unicode)) else x for x in op)
             for op in m] for m in messages][-4:]


def firsts(f, two):
    """All first messages of one operation, or of one or two."""
    codec, ref = f.fresh()
    for m in f.prelude():
        ref.step(f.wire(m))
    for m in f.moves(ref):
        yield m
    for m in f.pairs(ref) if two else ():
        yield m


def run_case(job, case):
    """One first message, then everything reachable from it: breadth first
    over messages of one operation, new states only; at last the whole table
    is read."""
    name, config, is_req, first, depth = case
    f = fmt(name, config, is_req)
    steps = 0
    pre = f.prelude()
    first = [tuple(op) for op in first]
    seen = SEEN.setdefault((name, config, is_req), {})
    todo = [(pre + [first], depth)]
    while todo:
        hist, left = todo.pop()
        after = both(f, hist)
        SINK[0].ticks += 1
        steps += 1
        if after is None:
            continue
        key, moves = after
        STATES.add(hash((name, config, is_req, key)))
        if left and seen.get(key, 0) < left:
            seen[key] = left
            todo += [(hist + [m], left - 1) for m in moves]
    return steps


def cases(tier):
    deep = tier == 'thorough'
    for name in sorted(ONLY or FORMATS):
        for config in range(len(FORMATS[name].CONFIGS)):
            for is_req in (True, False):
                f = fmt(name, config, is_req)
                ref = f.fresh()[1]
                for m in f.prelude():
                    ref.step(f.wire(m))
                small = f.small(ref)
                if not small and not is_req and not deep:
                    continue
                for first in firsts(f, small or deep):
                    yield name, [name, config, is_req, first,
                                 1 + deep if len(first) == 1
                                 else deep and small]


ONLY = None
STATES = set()
SEEN = {}
SINK = [None]


def run(tier, shard, nshards, out):
    sink = Sink(out, shard, nshards)
    sink.states = STATES
    SINK[0] = sink
    drive(sink, cases(tier), run_case)


def replay(data):
    class Dummy(object):
        ticks = 0
    SINK[0] = Dummy()
    return replay_with(run_case, data)
