"""Sessions are independent: any interleaving of two sessions gives each of
them what it gives alone."""
import itertools
import os
import sys
try:
    import bitarray
except ImportError:
    # not installed here: a stand-in for the few calls that are used
    sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                 'stubs'))
import alphabets as A
from engine import Options, norm
from sink import Bad, Sink, drive, replay_with
import compressor.http2 as http2
import compressor.headerdiff as headerdiff
import compressor.delta as delta
import compressor.delta2 as delta2
import compressor.bohe as bohe
import compressor.simple as simple
import compressor.delta_bohe as delta_bohe
import compressor.delta2_bohe as delta2_bohe

REQ = [
    ({':method': 'get', ':path': '/', ':host': A.H, ':version': 'HTTP/1.1',
      'accept': 'text/html;q=0.5, */*', 'cookie': 'a=1; b=2'}, A.H),
    ({':method': 'post', ':path': '/x?y=1', ':host': A.H2,
      ':version': 'HTTP/1.1', 'user-agent': 'u', 'x-y': '1', 'cookie': 'b=2',
      'content-length': '17', 'if-modified-since':
      'Tue, 01 Jan 2013 10:00:00 GMT'}, A.H2),
    ({':method': 'get', ':path': '/x?y=1', ':host': A.H,
      ':version': 'HTTP/1.1', 'accept': '*/*', 'user-agent': 'u',
      'x-y': '2', 'cache-control': 'max-age=5'}, A.H),
]
RES = [
    ({':status': '200', ':status-text': 'OK', ':version': 'HTTP/1.1',
      'date': 'Tue, 01 Jan 2013 10:00:00 GMT', 'server': 's',
      'content-length': '300'}, A.H),
    ({':status': '304', ':status-text': 'OK', ':version': 'HTTP/1.1',
      'date': 'Tue, 01 Jan 2013 10:00:00 GMT', 'etag': '"a"', 'x-y': '1',
      'cache-control': 'max-age=60'}, A.H2),
    ({':status': '200', ':status-text': 'OK', ':version': 'HTTP/1.1',
      'expires': 'Wed, 02 Jan 2013 10:00:00 GMT', 'server': 's', 'age': '7',
      'set-cookie': 'a=1; path=/', 'x-y': '2'}, A.H),
]
# codec, parameters of session A, parameters of session B
CONFIGS = [
    (http2, [], []), (http2, ['buffer_size=1600'], []),
    (http2, ['buffer_size=80'], ['buffer_size=80']),
    (headerdiff, [], []), (headerdiff, ['buffer=40'], ['huffman']),
    (headerdiff, ['deflate=12'], ['deflate=12']),
    (headerdiff, ['delta_type=2'], ['delta=false']),
    (delta, [], []), (delta, ['max_entries=5'], []),
    (delta2, [], []), (delta2, ['max_entries=6'], ['max_byte_size=200']),
    (delta2, ['hg_adjust=true'], ['implicit_hg_add=true']),
    (delta2, ['refcnt_vals=true', 'hg_adjust=true'], ['refcnt_vals=true']),
    (simple, [], []), (simple, ['max_entries=1'], ['seven']),
    (simple, ['huffman'], ['huffman', 'date']), (bohe, [], []),
    (delta_bohe, [], []), (delta2_bohe, [], []),
]
BOHE = (bohe, delta_bohe, delta2_bohe)      # these cannot decompress
ALONE = {}


def alphabet(is_req, codec):
    if codec in BOHE or codec is simple:
        return REQ if is_req else RES
    return (A.requests() if is_req else A.responses())[1:4]


def orders(n):
    """Every interleaving of two sequences of n steps."""
    for c in itertools.combinations(range(2 * n), n):
        yield [0 if i in c else 1 for i in range(2 * n)]


class Session(object):
    def __init__(self, config, side, is_req, seq, module=None):
        codec, a, b = CONFIGS[config]
        self.can = codec not in BOHE
        self.msgs = [alphabet(is_req, codec)[i] for i in seq]
        codec = module or codec
        self.codec = codec.Processor(Options, is_req, list((a, b)[side]))
        self.at = 0
        self.out = []

    def step(self):
        """compress and decompress calls alternate"""
        n, phase = divmod(self.at, 2)
        self.at += 1
        if phase == 0:
            m, host = self.msgs[n]
            given = dict(m)
            self.wire = self.codec.compress(given, host)
            if given != m:
                raise Bad('compress changed the message it was given: %r '
                          'became %r' % (m, given))
            # the caller may reuse the message
            given.clear()
            self.out.append(text(self.wire))
        elif not self.can:
            self.out.append(None)
        else:
            self.out.append(sorted(norm(self.codec.decompress(self.wire))))


def text(wire):
    if isinstance(wire, str):
        return wire
    return ','.join('%d' % x for x in wire)


def alone(config, side, is_req, seq):
    key = (config, side, is_req, tuple(seq))
    if key not in ALONE:
        # in modules of its own: nothing an earlier session left behind can
        # be part of what is expected
        name = CONFIGS[config][0].__name__
        kept = {}
        for k in list(sys.modules):
            if k == 'compressor' or k.startswith('compressor.'):
                kept[k] = sys.modules.pop(k)
        try:
            __import__(name)
            s = Session(config, side, is_req, seq, sys.modules[name])
            for _ in range(2 * len(seq)):
                s.step()
        finally:
            for k in list(sys.modules):
                if k == 'compressor' or k.startswith('compressor.'):
                    del sys.modules[k]
            sys.modules.update(kept)
        ALONE[key] = s.out
    return ALONE[key]


def cases(tier):
    deep = tier == 'thorough'
    n = 3
    seqs = list(itertools.product(range(n), repeat=2))
    for config in range(len(CONFIGS)):
        for kinds in ((1, 1), (1, 0), (0, 0)):
            for a in seqs:
                for b in seqs if deep else (
                            seqs[(a[0] + 3 * a[1] + 4) % 9],
                            (a[1], (a[0] + a[1]) % 3))[
                                CONFIGS[config][0] in BOHE:]:
                    yield 'interleave', [config, kinds, a, b]
    if deep:
        for config in range(len(CONFIGS)):
            for kinds in ((1, 1), (1, 0), (0, 0)):
                yield 'interleave', [config, kinds, (0, 1, 2), (1, 2, 0)]


def run_case(job, case):
    config, kinds, a, b = case
    want = [alone(config, 0, bool(kinds[0]), a),
            alone(config, 1, bool(kinds[1]), b)]
    steps = 0
    for order in orders(2 * len(a)):
        ss = [Session(config, 0, bool(kinds[0]), a),
              Session(config, 1, bool(kinds[1]), b)]
        for who in order:
            s = ss[who]
            s.step()
            steps += 1
            k = len(s.out) - 1
            if s.out[k] != want[who][k]:
                raise Bad('%s: session %s, run as %r with another, gives %r '
                          'for message %d, but %r alone' % (
                              CONFIGS[config][0].__name__, 'AB'[who],
                              ''.join('AB'[x] for x in order), s.out[k],
                              k // 2, want[who][k]))
        STATES.add(hash((config, tuple(order), repr(ss[0].out),
                         repr(ss[1].out))))
        SINK[0].ticks += 1
    SINK[0].extra['interleavings'] = SINK[0].extra.get('interleavings', 0) + \
        sum(1 for _ in orders(2 * len(a)))
    return steps


STATES = set()
SINK = [None]


def run(tier, shard, nshards, out):
    sink = Sink(out, shard, nshards)
    sink.states = STATES
    SINK[0] = sink
    drive(sink, cases(tier), run_case)


def replay(data):
    class Dummy(object):
        ticks = 0
        extra = {}
    SINK[0] = Dummy()
    return replay_with(run_case, data)
