"""Sessions of the codecs that the tool can load: any interleaving of two
sessions gives each of them what it gives alone."""
import itertools
import os
import sys
from base import Bad, need, norm
import hist

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
# codec, parameters of session A, parameters of session B
CONFIGS = [
    ('http1', [], []), ('http1_gzip', [], []), ('http1_huffman', [], []),
    ('spdy3', [], ['dict']), ('spdy3', ['dict'], ['dict']), ('hyper_hpack', [], []),
    ('fork', ['%s'], ['%s']),
]
ALONE = {}


def orders(n):
    for c in itertools.combinations(range(2 * n), n):
        yield [0 if i in c else 1 for i in range(2 * n)]


def cases(tier):
    n = len(hist.REQ)
    deep = tier == 'thorough'
    for k in range(len(CONFIGS)):
        pairs = list(itertools.product(range(n), repeat=2))
        if CONFIGS[k][0] == 'fork':         # two processes each
            for kinds in ((1, 1), (1, 0), (0, 0)):
                for a in range(n if deep else 2):
                    yield 'interleave (CPython)', [k, kinds, (a, (a + 1) % n),
                                         ((a + 2) % n, a)]
            continue
        for kinds in ((1, 1), (1, 0), (0, 0)):
            for a in pairs:
                for b in pairs if deep else (
                        pairs[(a[0] + 7 * a[1] + 4) % len(pairs)],
                        (a[1], (a[0] + a[1]) % n), (a[1], a[0])):
                    yield 'interleave (CPython)', [k, kinds, a, b]
            if deep:
                for a in range(n):
                    yield 'interleave (CPython)', [k, kinds, [a, (a + 1) % n, a],
                                         [(a + 2) % n, a, (a + 1) % n]]


class Session(object):
    def __init__(self, config, side, is_req, seq):
        name = CONFIGS[config][0]
        params = list(CONFIGS[config][1 + side])
        if name == 'fork':
            params = [os.path.join(REPO, 'sample_exec_codec.py')]
        self.fork = name == 'fork'
        self.codec = hist.make(name, params, bool(is_req))
        self.msgs = [hist.message((hist.REQ if is_req else hist.RES)[i], 0)
                     for i in seq]
        self.at = 0
        self.out = []

    def step(self):
        n, phase = divmod(self.at, 2)
        self.at += 1
        if phase == 0:
            m = self.msgs[n]
            given = dict(m)
            self.wire = self.codec.compress(given, 'www.example.com')
            need(given == m, 'compress changed the message it was given: %r '
                 'became %r', m, given)
            given.clear()
            self.out.append(self.wire)
            return
        try:
            back = self.codec.decompress(self.wire)
        except NotImplementedError:
            self.out.append(None)
        else:
            self.out.append(sorted(norm(back)))

    def close(self):
        if self.fork:
            p = self.codec.process
            p.kill()
            p.wait()
            p.stdin.close()
            p.stdout.close()


def outside():
    """The modules of the codecs and of the library one of them uses."""
    return [k for k in sys.modules
            if k.split('.')[0] in ('compressor', 'hpack')]


def alone(config, side, is_req, seq):
    key = (config, side, is_req, tuple(seq))
    if key not in ALONE:
        kept = {k: sys.modules.pop(k) for k in outside()}
        s = None
        try:
            s = Session(config, side, is_req, seq)
            for _ in range(2 * len(seq)):
                s.step()
        finally:
            if s:
                s.close()
            for k in outside():
                del sys.modules[k]
            sys.modules.update(kept)
        ALONE[key] = s.out
    return ALONE[key]


def run_case(job, case, sink):
    config, kinds, a, b = case
    want = [alone(config, 0, kinds[0], a), alone(config, 1, kinds[1], b)]
    steps = 0
    for order in orders(2 * len(a)):
        ss = []
        try:
            ss.append(Session(config, 0, kinds[0], a))
            ss.append(Session(config, 1, kinds[1], b))
            for who in order:
                s = ss[who]
                s.step()
                steps += 1
                k = len(s.out) - 1
                if s.out[k] != want[who][k]:
                    raise Bad('%s: session %s, run as %r with another, gives '
                              '%r for message %d, but %r alone' % (
                                  CONFIGS[config][0], 'AB'[who],
                                  ''.join('AB'[x] for x in order), s.out[k],
                                  k // 2, want[who][k]))
        finally:
            for s in ss:
                s.close()
        sink.state((config, tuple(order), str(case)))
        sink.ticks += 1
    return steps
