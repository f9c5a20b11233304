"""delta2's LRU storage against a first-in first-out model.

Configurations with a wrapping sequence number are explored to a fixed point
of the model's states, each reached through the real storage by its own
history; the others to a stated depth."""
import itertools
import sys
from engine import Failure
from sink import Bad, Sink, drive, replay_with
from compressor.delta2 import lrustorage

ENTRIES = [('a', ''), ('a', 'x'), ('b', 'x'), ('bb', 'xyz'), ('', 'x')]
NONE = None
CONFIGS = [
    # max_bytes, max_items, max_seq_num, offset
    (NONE, 3, 4, NONE), (NONE, 3, 3, NONE), (NONE, 2, 7, 3), (NONE, 1, 3, 2),
    (4, NONE, 6, NONE), (7, 3, 5, 1), (4, 2, 6, 4), (3, 3, 4, NONE),
    (NONE, 0, 4, NONE), (0, NONE, 4, NONE), (0, 0, 5, 2), (1, 1, 2, NONE),
    (NONE, 2, 3, 1), (5, 2, 2, NONE),
]
DEEP = [(6, NONE, 9, NONE), (9, 4, 5, NONE)]
OPEN = [(NONE, NONE, NONE, NONE), (6, NONE, NONE, NONE), (NONE, 3, NONE, 5),
        (8, 2, NONE, 1)]
OPS = [('put', i) for i in range(len(ENTRIES))] + \
    [('store', i) for i in range(len(ENTRIES))] + [('pop', 0)]


class Model(object):
    def __init__(self, config):
        self.max_bytes, self.max_items, self.max_seq, self.offset = config
        self.offset = self.offset or 0
        self.seq = self.offset
        self.ring = []              # (seq, key, value), oldest first
        self.dead = []

    def key(self):
        return (self.seq, tuple(self.ring))

    def size(self):
        return sum(len(k) + len(v) for _, k, v in self.ring)

    def fits(self, k, v, room):
        return (self.max_bytes is None or
                self.size() + len(k) + len(v) <= self.max_bytes) and \
            (self.max_items is None or len(self.ring) + 1 <= self.max_items)

    def pop(self):
        gone = self.ring.pop(0)
        self.dead.append(gone)
        return gone

    def add(self, k, v):
        self.ring.append((self.seq, k, v))
        self.seq += 1
        if self.max_seq is not None and self.seq >= self.max_seq:
            self.seq = self.offset

    def step(self, op, i):
        """-> (what the call answers, entries evicted)"""
        k, v = ENTRIES[i]
        gone = []
        if op == 'pop':
            if not self.ring:
                return 0, gone
            return 1, [self.pop()]
        if op == 'put':
            if self.max_items == 0 or self.max_bytes == 0:
                return 0, gone
            while not self.fits(k, v, 1):
                if not self.ring:
                    return 0, gone
                gone.append(self.pop())
            self.add(k, v)
            return 1, gone
        if not self.fits(k, v, 1):
            return 'refused', gone
        self.add(k, v)
        return 1, gone


def enabled(config, op):
    # a direct store presumes that the storage holds anything at all
    return not (op[0] == 'store' and (config[1] == 0 or config[0] == 0))


class Real(object):
    def __init__(self, config):
        mb, mi, ms, off = config
        self.s = lrustorage.LruStorage(mb, mi, ms, off)
        self.gone = []
        self.s.pop_cb = self.gone.append

    def step(self, op, i):
        k, v = ENTRIES[i]
        if op == 'pop':
            return int(bool(self.s.PopOne()))
        e = lrustorage.KV(k, v)
        if op == 'put':
            if not self.s.Reserve(e, 1):
                return 0
            self.s.Store(e)
            return 1
        try:
            self.s.Store(e)
        except MemoryError:
            return 'refused'
        return 1


def check(model, real, config):
    s = real.s
    if len(s) != len(model.ring):
        raise Bad('%d entries, expected %d' % (len(s), len(model.ring)))
    live = {}
    for seq, k, v in model.ring:
        live[seq] = (k, v)
        e = s.Lookup(seq)
        if (e.key(), e.val(), e.seq_num) != (k, v, seq):
            raise Bad('number %d is (%r, %r, %r), expected (%r, %r)' % (
                seq, e.key(), e.val(), e.seq_num, k, v))
    top = (model.seq + 2) if config[2] is None else config[2]
    for seq in range(-1, top + 1):
        if seq in live:
            continue
        try:
            e = s.Lookup(seq)
        except Failure:
            continue
        raise Bad('number %d, not in use, is answered with %r' % (seq, e))
    for k, v in itertools.product(('a', 'b', 'bb', '', 'c'),
                                  ('', 'x', 'xyz', 'q')):
        exact = [q for q, kk, vv in model.ring if (kk, vv) == (k, v)]
        keys = [q for q, kk, vv in model.ring if kk == k]
        ki, vi = s.FindKeyValEntries(k, v)
        if exact:
            if vi != exact[-1] or ki not in keys:
                raise Bad('(%r, %r) is found at %r, expected %r' % (
                    k, v, (ki, vi), exact[-1]))
        elif vi is not None or ki != (keys[-1] if keys else None):
            raise Bad('(%r, %r) is found at %r, expected the name at %r' % (
                k, v, (ki, vi), keys[-1] if keys else None))


def walk(config, path, whole=False):
    """Runs a history; returns the model after it."""
    config = tuple(config)
    model, real = Model(config), Real(config)
    if whole or not path:
        check(model, real, config)
    for n, (op, i) in enumerate(path):
        del real.gone[:]
        want, gone = model.step(op, i)
        got = real.step(op, i)
        if got != want:
            raise Bad('%s of %r answered %r, expected %r' % (
                op, ENTRIES[i], got, want))
        seen = [(e.seq_num, e.key(), e.val()) for e in real.gone]
        if seen != gone:
            raise Bad('%s of %r evicted %r, expected %r' % (
                op, ENTRIES[i], seen, gone))
        if whole or n == len(path) - 1:
            check(model, real, config)
    return model


def run(tier, shard, nshards, out):
    sink = Sink(out, shard, nshards)
    deep = tier == 'thorough'
    configs = [(c, 'fixed point') for c in CONFIGS] + \
        [(c, 'fixed point') for c in (DEEP if deep else [])] + \
        [(c, 6 if deep else 4) for c in OPEN]
    trees = [(c, op) for c in CONFIGS + OPEN for op in OPS]
    n = 0
    for config, bound in configs:
        n += 1
        if not sink.mine(n):
            continue
        job = 'states %r' % (config,)
        seen, frontier, depth, stop = set(), [[]], 0, False
        while frontier and not stop and (bound == 'fixed point' or
                                         depth <= bound):
            after = []
            for path in frontier:
                sink.begin(job, {'config': config, 'path': path})
                try:
                    m = walk(config, path)
                except Failure:
                    sink.bad(__import__('sink').exc())
                    stop = True
                    break
                sink.steps += 1
                if m.key() in seen:
                    continue
                seen.add(m.key())
                sink.states.add(hash((config, m.key())))
                after.extend(path + [op] for op in OPS
                             if enabled(config, op))
            frontier = after
            depth += 1
        sink.extra['%s: states' % job] = len(seen)
        sink.extra['%s: depth' % job] = depth - 1
    # every sequence to a depth, without merging of states
    for config, first in trees:
        n += 1
        if not sink.mine(n) or not enabled(config, first):
            continue
        for rest in itertools.product(OPS, repeat=3 if deep else 2):
            path = [first] + list(rest)
            if not all(enabled(config, op) for op in path):
                continue
            sink.begin('sequences', {'config': config, 'path': path})
            try:
                walk(config, path, True)
            except Failure:
                if sink.bad(__import__('sink').exc()):
                    break
            sink.steps += len(path)
    sink.write()


def replay(data):
    try:
        walk(data['case']['config'],
             [tuple(p) for p in data['case']['path']], True)
    except Failure:
        return __import__('sink').exc()
    return None
