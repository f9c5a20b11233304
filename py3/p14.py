"""Running sessions through codecs, with codecs that record what they get."""
import io
import itertools
import json
import os
import sys
import types
from base import Bad, need, norm
from lib.processors import Processors
from lib.stream import Stream
from compressor import BaseProcessor

LOG = []
COUNT = [0]
KINDS = ('good', 'big', 'lossy', 'alter', 'invent', 'nodec', 'mutate')
BASE = 'vfake_good'


class Options(object):
    verbose = 0
    debug = False
    baseline = BASE
    tsv = False
    processor_names = ()


class Fake(BaseProcessor):
    kind = None

    def __init__(self, options, is_request, params):
        BaseProcessor.__init__(self, options, is_request, params)
        COUNT[0] += 1
        self.serial = COUNT[0]
        self.n = 0
        LOG.append(('new', self.kind, is_request, tuple(params), self.serial))

    def compress(self, in_headers, host):
        LOG.append(('compress', self.serial, dict(in_headers), host))
        self.n += 1
        text = json.dumps(sorted(in_headers.items()))
        if self.kind == 'mutate':
            in_headers['mutant'] = 'm'
            in_headers.pop('a', None)
        if self.kind == 'big':
            text += ' ' * (7 * self.n)
        return text.encode('ascii')

    def done(self):
        LOG.append(('done', self.serial))
        if self.kind == 'alter':
            raise ValueError('done')

    def decompress(self, compressed):
        LOG.append(('decompress', self.serial, compressed))
        if self.kind == 'nodec':
            raise NotImplementedError
        out = dict(json.loads(compressed.decode('ascii')))
        at = [int(p[2:]) for p in self.params if p.startswith('n=')] or [1]
        if self.n == at[0]:
            if self.kind == 'lossy':
                out.pop('a', None)
            elif self.kind == 'alter':
                if 'a' in out:
                    out['a'] += 'x'
            elif self.kind == 'invent':
                out['other'] = 'v'
        return out


for kind in KINDS:
    m = types.ModuleType('compressor.vfake_' + kind)
    m.Processor = type('Processor', (Fake,), {
        'kind': kind, '__module__': 'compressor.vfake_' + kind})
    sys.modules[m.__name__] = m

MSGS = [
    {'a': '1', 'b': '2'},
    {'a': '1', 'connection': 'B, x-y', 'b': '2', 'x-y': 'q',
     'keep-alive': 'k'},
    {':method': 'get', ':version': 'HTTP/1.1', 'cookie': 'a=1; b=2'},
    {':status': '200', ':status-text': 'OK', ':version': 'x', 'a': 'p\0q'},
    {'a': '1', 'connection': 'close\0a', 'keep-alive': '1', 'b': '2'},
    {'b': '', 'connection': '', 'a': 'x'},
]
SPECS = [
    # as given by the user, kind, parameters
    ('vfake_good', 'good', ()),
    ('vfake_big', 'big', ()),
    ('vfake_mutate', 'mutate', ()),
    ('vfake_lossy=n=2', 'lossy', ('n=2',)),
    ('vfake_alter', 'alter', ()),
    ('vfake_invent="n=1, y"', 'invent', ('n=1', 'y')),
    ('vfake_nodec', 'nodec', ()),
    ('vfake_big=p,  q', 'big', ('p', 'q')),
    ('vfake_big=p=1', 'big', ('p=1',)),
    ('vfake_nodec=z', 'nodec', ('z',)),
]
TYPES = ('req', 'res')


def wanted(hdrs):
    """What remains of the headers after hop-by-hop ones are dropped."""
    drop = set([':status-text', ':version', 'keep-alive', 'connection'])
    for field in hdrs.get('connection', '').split('\0'):
        drop.update(t.strip(' ').lower() for t in field.split(','))
    return {k: v for k, v in hdrs.items() if k not in drop}


def cases(tier):
    deep = tier == 'thorough'
    for n in range(1, 5 if deep else 4):
        for c in itertools.product(range(len(MSGS)), repeat=n):
            for t in (0, 1):
                yield 'filter', [c, t]
    # codec line-ups: the baseline and up to three others, any order
    rest = range(1, len(SPECS))
    for k in (0, 1, 2, 3):
        for c in itertools.combinations(rest, k):
            for pos in sorted(set([0, k])):
                line = list(c[:pos]) + [0] + list(c[pos:])
                for shape in range(5):
                    for debug in (0, 1):
                        yield 'lineup', [line, shape, 0, debug]
    for a in rest:
        for v in range(1, 6):
            for shape in range(5):
                for debug in (0, 1):
                    yield 'lineup', [[0, a], shape, v, debug]
    if deep:
        for line in itertools.permutations(range(len(SPECS)), 3):
            for v in (0, 2, 5):
                if 0 in line:
                    for shape in range(5):
                        yield 'lineup', [line, shape, v, 0]


SHAPES = [
    [('req', [0, 1, 2])],
    [('res', [3, 0])],
    [('req', [0, 4]), ('res', [3]), ('req', [1, 5])],
    [('res', [3, 3, 3]), ('res', [0, 1])],
    [('req', [5]), ('req', []), ('res', [2, 0, 4, 1])],
]


class Run(object):
    def __init__(self, specs, shape, verbose, debug):
        del LOG[:]
        self.options = Options()
        self.options.verbose = verbose
        self.options.debug = bool(debug)
        self.options.processor_names = [SPECS[s][0] for s in specs]
        self.names = []
        for s in specs:
            _, kind, params = SPECS[s]
            self.names.append('vfake_' + kind + (
                ' (' + ', '.join(params) + ')' if params else ''))
        self.out = []
        self.sessions = []
        for k, (kind, idx) in enumerate(shape):
            # sessions may have the same name and the same hosts
            msgs = [(dict(MSGS[i]), 'h%d.example' % n)
                    for n, i in enumerate(idx)]
            self.sessions.append(Stream('s%d' % (k % 4 // 3), msgs, kind,
                                        list(self.names)))
        self.exit = None
        start = sum(os.times()[:2])
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            p = Processors(self.options, list(TYPES), self.out.append)
            self.initial = len(LOG)
            self.marks = []
            try:
                for s in self.sessions:
                    self.marks.append(len(LOG))
                    p.process_session(s)
                p.done()
            except SystemExit as e:
                self.exit = e.code
            self.err = sys.stderr.getvalue()
        finally:
            sys.stderr = err
        self.cpu = sum(os.times()[:2]) - start + 0.001
        self.marks.append(len(LOG))
        self.text = ''.join(self.out)


def expect(specs, shape):
    """Per session and codec: sizes, mismatching message numbers."""
    out = []
    for kind, idx in shape:
        per = []
        for s in specs:
            _, k, params = SPECS[s]
            at = [int(p[2:]) for p in params if p.startswith('n=')] or [1]
            sizes, bad = [], []
            for n, i in enumerate(idx):
                h = wanted(MSGS[i])
                size = len(json.dumps(sorted(h.items())))
                if k == 'big':
                    size += 7 * (n + 1)
                sizes.append(size)
                if n + 1 == at[0] and (
                        k == 'invent' or
                        k in ('lossy', 'alter') and 'a' in h):
                    bad.append(n)
            per.append((sizes, bad))
        out.append(per)
    return out


def run_case(job, case, sink):
    if job == 'filter':
        c, t = case
        specs, shape, verbose, debug = [0], [(TYPES[t], c)], 0, 0
    else:
        specs, sh, verbose, debug = case
        shape = SHAPES[sh]
    sink.state(str(case))
    r = Run(specs, shape, verbose, debug)
    want = expect(specs, shape)
    # the first mismatch in processing order
    first = None
    for si, (kind, idx) in enumerate(shape):
        for n in range(len(idx)):
            for ci in range(len(specs)):
                if n in want[si][ci][1] and first is None:
                    first = (si, n, ci)
    # whether a codec that changes its input mismatches is left open
    lines = [x for x in r.text.split('\n') if 'mismatch' in x and
             'vfake_mutate' not in x]
    if debug and 2 in specs:
        return 0
    if debug and first is not None:
        need(r.exit == 1, 'debug mode ended with %r at a mismatch', r.exit)
        need(len(lines) == 1 and r.names[first[2]] in lines[0],
             'mismatch lines %r, expected one for %s', lines,
             r.names[first[2]])
        return 1
    need(r.exit is None, 'the run was ended with %r', r.exit)
    expected = []
    for si, (kind, idx) in enumerate(shape):
        for n in range(len(idx)):
            for ci in range(len(specs)):
                if n in want[si][ci][1]:
                    expected.append(r.names[ci])
    need(len(lines) == len(expected) and
         all(x.split('mismatch in ')[-1].rstrip(':') == name
             for x, name in zip(lines, expected)),
         'mismatch lines %r, expected them for %r', lines, expected)
    details = [x for x in r.text.split('\n') if 'Only found in' in x]
    if 'vfake_mutate' not in r.names:
        need((len(details) >= len(lines)) if verbose > 1 else not details,
             'with verbosity %d: details %r', verbose, details)
    # results
    for si, s in enumerate(r.sessions):
        base = want[si][specs.index(0)][0]
        for ci, name in enumerate(r.names):
            sizes = want[si][ci][0]
            need(list(s.sizes[name]) == sizes, '%s: sizes %r, expected %r',
                 name, s.sizes[name], sizes)
            ratios = [1.0 * a / b for a, b in zip(sizes, base)]
            need(len(s.ratios[name]) == len(ratios) and
                 all(abs(a - b) < 1e-9 for a, b in
                     zip(s.ratios[name], ratios)),
                 '%s: ratios %r, expected %r', name, s.ratios[name], ratios)
            need(len(s.times[name]) == len(sizes) and
                 all(0 <= x <= r.cpu for x in s.times[name]),
                 '%s: times %r', name, s.times[name])
        need(set(k for k in s.sizes if s.sizes[k]) <= set(r.names),
             'results for unknown codecs: %r', sorted(s.sizes))
        need([m for m, _ in s.messages] == [MSGS[i] for i in shape[si][1]],
             'the messages of the session were changed: %r', s.messages)
    # what the codecs saw
    for si, (kind, idx) in enumerate(shape):
        part = LOG[r.marks[si]:r.marks[si + 1]]
        older = set(e[1] for e in LOG[:r.marks[si]]
                    if e[0] in ('compress', 'decompress'))
        born = {}
        for e in LOG[:r.marks[si + 1]]:
            if e[0] == 'new':
                born[e[4]] = e
        seen = {}
        for e in part:
            if e[0] in ('compress', 'decompress'):
                need(e[1] not in older, 'session %d is processed by a codec '
                     'instance used before', si)
                seen.setdefault(e[1], []).append(e)
        got = []
        for serial, events in seen.items():
            _, k, is_req, params, _ = born[serial]
            need(is_req == (kind == 'req'), 'a %s session was compressed by '
                 'a codec made for the other direction', kind)
            ins = [e for e in events if e[0] == 'compress']
            need([e[0] for e in events] == ['compress', 'decompress'] *
                 len(ins), '%s: calls %r', k, [e[0] for e in events])
            need([e[2] for e in ins] == [wanted(MSGS[i]) for i in idx],
                 '%s was given %r, expected %r', k, [e[2] for e in ins],
                 [wanted(MSGS[i]) for i in idx])
            need([e[3] for e in ins] == ['h%d.example' % n
                                         for n in range(len(idx))],
                 '%s was given the hosts %r', k, [e[3] for e in ins])
            for a, b in zip(events[::2], events[1::2]):
                need(b[2].decode('ascii').rstrip() ==
                     json.dumps(sorted(a[2].items())),
                     '%s decompressed another message', k)
            got.append((k, params))
        if r.initial is not None and si == len(shape) - 1 and idx:
            ended = [e[1] for e in part if e[0] == 'done']
            need(len(ended) == len(set(ended)) and set(seen) <= set(ended),
                 'codecs %r were used, and %r told that it is over',
                 sorted(seen), ended)
        if idx:
            need(sorted(got) == sorted((SPECS[s][1], SPECS[s][2])
                                       for s in specs),
                 'session %d went through %r', si, got)
    # warnings
    for ci, name in enumerate(r.names):
        n = sum(1 for x in r.err.split('\n') if name + ' decompression' in x)
        expected = int(SPECS[specs[ci]][1] == 'nodec' and
                       any(i for _, i in shape))
        need(n == expected, '%d warnings about %s, expected %d', n, name,
             expected)
    return sum(len(i) for _, i in shape) * len(specs)
