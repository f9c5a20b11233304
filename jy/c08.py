"""Bit buffers (Python): a first-in first-out queue of bits.

Every sequence of stores, reads and clears from a small alphabet is run on the
real class and on a string of '0'/'1'."""
import itertools
import sys
from engine import Failure
from sink import Bad, Sink, drive, replay_with

MODULES = ['bohe', 'delta', 'delta2', 'delta2_bohe', 'delta_bohe']
PATTERN = [0xA7, 0x3C, 0xFF, 0x01, 0x96, 0x80, 0x5B]
BITS = [''.join('1' if (i >> (7 - j)) & 1 else '0' for j in range(8))
        for i in range(256)]
CLASSES = {}


def cls(module):
    if module not in CLASSES:
        name = 'compressor.%s.bit_bucket' % module
        __import__(name)
        CLASSES[module] = sys.modules[name].BitBucket
    return CLASSES[module]


def tobits(data, n):
    return ''.join([BITS[b & 255] for b in data])[:n]


def frombits(s):
    s = s + '0' * (-len(s) % 8)
    return [int(s[i:i + 8], 2) for i in range(0, len(s), 8)]


class Model(object):
    def __init__(self):
        self.s = ''
        self.r = 0


STATES = set()


def run_ops(module, ops):
    """Each op is [kind, argument]; reads beyond the end are skipped."""
    bb = cls(module)()
    m = Model()
    steps = 0
    for op, arg in ops:
        left = len(m.s) - m.r
        steps += 1
        if op == 'store':           # arg: number of bits, rotation of PATTERN
            n, rot = arg
            data = (PATTERN[rot:] + PATTERN[:rot])[:(n + 7) // 8]
            keep = list(data)
            bb.StoreBits((data, n))
            if data != keep:
                raise Bad('StoreBits changed its argument')
            m.s += tobits(keep, n)
        elif op == 'bit':
            bb.StoreBit(arg)
            m.s += '1' if arg else '0'
        elif op == 'w4':
            bb.StoreBits4(arg)
            m.s += BITS[arg & 15][4:]
        elif op == 'w8':
            bb.StoreBits8(arg)
            m.s += BITS[arg]
        elif op == 'w16':
            bb.StoreBits16(arg)
            m.s += BITS[arg >> 8] + BITS[arg & 255]
        elif op == 'w22':
            bb.StoreBits22(arg)
            m.s += (BITS[arg >> 16 & 255] + BITS[arg >> 8 & 255] +
                    BITS[arg & 255])[-22:]
        elif op == 'w32':
            bb.StoreBits32(arg)
            m.s += ''.join(BITS[(arg >> k) & 255] for k in (24, 16, 8, 0))
        elif op == 'pad':
            bb.PadToByteBoundary()
            m.s += '0' * (-len(m.s) % 8)
        elif op == 'clear':
            bb.Clear()
            m = Model()
        elif op == 'align':
            if -m.r % 8 > left:
                continue
            bb.AdvanceReadPtrToByteBoundary()
            m.r += -m.r % 8
        elif op in ('read', 'rest', 'chunks'):
            if op == 'rest':
                sizes = [left]
            elif op == 'chunks':
                sizes = [arg] * (left // arg) + ([left % arg]
                                                 if left % arg else [])
            else:
                sizes = [arg]
            for n in sizes:
                if n > len(m.s) - m.r:
                    continue
                got, k = bb.GetBits(n)
                want = m.s[m.r:m.r + n]
                m.r += n
                if k != n or len(got) != (n + 7) // 8 or \
                        tobits(got, n) != want or got != frombits(want):
                    raise Bad('GetBits(%d) returned %r, expected %r' % (
                        n, (got, k), frombits(want)))
        elif op == 'over':
            try:
                got = bb.GetBits(left + arg)
            except Failure:
                break
            raise Bad('GetBits(%d) was answered with %r when %d bits were '
                      'left' % (left + arg, got, left))
        elif op in ('r1', 'r4', 'r8', 'r16', 'r32'):
            n = int(op[1:])
            if n > left:
                continue
            got = {'r1': 'GetBit', 'r4': 'GetBits4', 'r8': 'GetBits8',
                   'r16': 'GetBits16', 'r32': 'GetBits32'}[op]
            got = getattr(bb, got)()
            want = int(m.s[m.r:m.r + n], 2)
            m.r += n
            if got != want:
                raise Bad('%s returned %r, expected %r' % (op, got, want))
        STATES.add(hash((module, m.s, m.r)))
        if bb.NumBits() != len(m.s):
            raise Bad('NumBits is %r after %d bits were stored (%s)' % (
                bb.NumBits(), len(m.s), op))
        if bool(bb.AllConsumed()) != (m.r >= len(m.s)):
            raise Bad('AllConsumed is %r with %d bits left' % (
                bb.AllConsumed(), len(m.s) - m.r))
    data, n = bb.GetAllBits()
    if n != len(m.s) or list(data) != frombits(m.s):
        raise Bad('GetAllBits is %r, expected %r' % (
            (list(data), n), (frombits(m.s), len(m.s))))
    if bb.BytesOfStorage() != (len(m.s) + 7) // 8:
        raise Bad('BytesOfStorage is %r for %d bits' % (
            bb.BytesOfStorage(), len(m.s)))
    return steps


def run_case(job, case):
    return run_ops(case['module'], case['ops'])


def cases(tier):
    deep = tier == 'thorough'
    for mod in MODULES:
        c = cls(mod)
        has4 = hasattr(c, 'StoreBits4')
        widths = list(range(1, 18)) + [23, 24, 25, 32, 33, 40]
        stores = [('store', (n, n % 7)) for n in widths] + \
            [('bit', 1), ('bit', 0), ('w8', 0x01), ('w8', 0xFE), ('w8', 0x5A),
             ('w16', 0xA55A), ('w16', 0x0180), ('w32', 0xDEADBEEF),
             ('w32', 0x01020304)]
        reads = [('chunks', n) for n in widths] + [('rest', 0)]
        if has4:
            stores += [('w4', 0x9), ('w4', 0xF6), ('pad', 0)]
        if hasattr(c, 'StoreBits22'):
            stores += [('w22', 0x3FFFFF), ('w22', 0x2A5C31), ('w22', 5)]
        name = 'stores ' + mod
        # offset, then two stores, then a read of everything in equal chunks
        k = 0
        for off in range(8):
            pre = [('bit', (off + i) % 2) for i in range(off)]
            for a in stores:
                for b in stores:
                    k += 1
                    rs = reads if deep else \
                        [reads[(k * 5 + j * 7) % len(reads)] for j in (0, 1)]
                    for r in rs:
                        yield name, {'module': mod, 'ops': pre + [a, b, r]}
        # reads of every width from every offset, then the rest
        name = 'reads ' + mod
        fixed = [('r8', 0), ('r16', 0), ('r32', 0)]
        if has4:
            fixed += [('r4', 0), ('r1', 0), ('align', 0)]
        fill = [('store', (40, 1)), ('store', (27, 4))]
        rd = [('read', n) for n in widths] + fixed
        for off in range(8):
            for a in rd:
                for b in rd:
                    yield name, {'module': mod, 'ops': fill + [
                        ('read', off) if off else ('bit', 1), a, b,
                        ('chunks', 1 + off)]}
        for n in (0, 1, 7, 8, 9, 16):
            for f in range(n + 1):
                for more in (1, 7, 8, 9):
                    yield 'over ' + mod, {'module': mod, 'ops': [
                        ('store', (n, 0)), ('read', f), ('over', more)]}
        # interleaved stores and reads, with clears
        name = 'mixed ' + mod
        al = [('store', (3, 0)), ('store', (8, 1)), ('store', (13, 2)),
              ('bit', 1), ('w16', 0x8001), ('read', 1), ('read', 5),
              ('read', 8), ('read', 11), ('rest', 0), ('clear', 0)]
        if has4:
            al += [('pad', 0), ('align', 0), ('w4', 3)]
        for ops in itertools.product(al, repeat=5 if deep else 4):
            yield name, {'module': mod, 'ops': list(ops) + [('rest', 0)]}


def run(tier, shard, nshards, out):
    sink = Sink(out, shard, nshards)
    sink.states = STATES
    drive(sink, cases(tier), run_case)


def replay(data):
    return replay_with(run_case, data)
