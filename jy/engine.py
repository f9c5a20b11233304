"""Exhaustive history explorer for the stateful codecs (runs under Jython 2.7).

A *job* fixes one codec configuration, one direction, one message alphabet and
one bounded set of histories:

  tree      every history of exactly `depth` messages over the alphabet (every
            shorter history is a prefix of one of them and is checked too)
  debruijn  one long history that contains every window of `depth` messages
            (so that every window is also exercised from a long-running state)
  list      an explicit list of histories

Every message of every history is compressed by the real codec, decompressed by
the real codec and (when the job has one) decoded by an independent reference
decoder, and the header sets are compared.
"""
import json
import os
import sys
import threading
import time
import traceback
from java.lang import Throwable

# what a call of the code under test may raise; Java's too
Failure = (Exception, Throwable)
STALL = 30.0


class Violation(Exception):
    def __init__(self, text, at=None):
        Exception.__init__(self, text)
        self.at = at


def norm(headers):
    """The header set that a message denotes: (name, value) pairs after values
    delimited by NUL (by ';' for cookies) are separated."""
    out = set()
    for k, v in dict(headers).items():
        for piece in v.split(';' if k == 'cookie' else '\0'):
            out.add((k, piece.strip(' ')))
    return out


def show(headers):
    return dict((k, v if len(v) < 80 else v[:30] + '...(%d)' % len(v))
                for k, v in dict(headers).items())


def diff_text(want, got):
    a, b = norm(want), norm(got)

    def short(items):
        return sorted((k, v if len(v) < 60 else v[:20] + '..%d' % len(v))
                      for k, v in items)
    return 'missing %r, unexpected %r' % (short(a - b), short(b - a))


class Options(object):
    verbose = 0
    debug = False
    baseline = 'http1'


class Job(object):
    def __init__(self, name, make, alphabet, depth, kind='tree', mode='lock',
                 prelude=(), monitor=None, histories=None, post=None,
                 info=None):
        self.name = name
        self.make = make            # () -> fresh codec object
        self.alphabet = alphabet    # list of (headers, host)
        self.depth = depth
        self.kind = kind
        self.mode = mode
        self.prelude = list(prelude)
        self.monitor = monitor      # None or () -> object with step(wire)
        self.histories = histories
        self.post = post
        self.info = info or {}

    def size(self):
        if self.kind == 'tree':
            return len(self.alphabet) ** self.depth
        if self.kind == 'debruijn':
            return 1
        return len(self.histories)

    def history(self, i):
        if self.kind == 'tree':
            out = []
            n = len(self.alphabet)
            for _ in range(self.depth):
                out.append(self.alphabet[i % n])
                i //= n
            out.reverse()
            return self.prelude + out
        if self.kind == 'debruijn':
            seq = debruijn(len(self.alphabet), self.depth)
            return self.prelude + [self.alphabet[x] for x in seq]
        return self.prelude + self.histories[i]


def debruijn(k, n):
    """Cyclic de Bruijn sequence B(k, n), linearised."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


class Stats(object):
    def __init__(self):
        self.histories = 0
        self.messages = 0
        self.states = set()
        self.wires = set()
        self.samples = []
        self.ticks = 0
        self.current = None
        self.violations = []


def run_history(job, hist, st):
    """Raises Violation."""
    mode = job.mode
    try:
        enc = job.make()
        dec = enc if mode == 'lock' else job.make()
    except Failure:
        raise Violation('the codec cannot be constructed: ' + exc(), 0)
    mon = job.monitor() if job.monitor else None
    wires = []
    n = len(hist)
    node = hash(job.name)
    for i in range(n):
        headers, host = hist[i]
        st.ticks += 1
        try:
            wire = enc.compress(dict(headers), host)
        except Failure:
            raise Violation('message %d: compress() failed: %s' % (i, exc()), i)
        st.messages += 1
        st.wires.add(hash(wire))
        node = hash((node, wire))
        if mon is None:
            st.states.add(node)
        wires.append(wire)
        if mode != 'batch':
            check_one(job, dec, mon, i, headers, wire, st)
    if mode == 'batch':
        for i in range(n):
            st.ticks += 1
            check_one(job, dec, mon, i, hist[i][0], wires[i], st)
    st.histories += 1
    return wires


def check_one(job, dec, mon, i, headers, wire, st):
    try:
        got = dec.decompress(wire)
        got = dict(got)
    except Failure:
        raise Violation('message %d: decompress() failed: %s' % (i, exc()), i)
    if norm(got) != norm(headers):
        raise Violation('message %d: decompressed headers differ from the '
                        'original: %s' % (i, diff_text(headers, got)), i)
    if mon is not None:
        try:
            ref = mon.step(wire)
        except Violation:
            raise
        except Failure:
            raise Violation('message %d: the reference decoder rejects the '
                            'encoding: %s' % (i, exc()), i)
        if ref is not None and norm(ref) != norm(headers):
            raise Violation('message %d: the reference decoder reads other '
                            'headers: %s' % (i, diff_text(headers, ref)), i)
        st.states.add(hash(mon.state()))


def exc():
    t, v, tb = sys.exc_info()
    last = traceback.extract_tb(tb)[-1]
    return '%s: %s (%s:%s)' % (getattr(t, '__name__', t), str(v)[:200],
                               os.path.basename(str(last[0])), last[1])


def minimise(job, hist, st, at=None, budget=200):
    """Greedy: drop messages, then headers, while the history still fails."""
    deadline = time.time() + 20
    if at is not None and job.mode != 'batch':
        hist = hist[:at + 1]

    def fails(h):
        try:
            run_history(job, h, Stats())
        except Violation as v:
            return str(v)
        return None
    text = fails(hist)
    if text is None:
        return hist, None
    changed = True
    while changed and budget > 0 and time.time() < deadline:
        changed = False
        step = max(1, len(hist) // 2)
        while step >= 1 and time.time() < deadline:
            i = 0
            while i < len(hist) and budget > 0 and time.time() < deadline:
                cand = hist[:i] + hist[i + step:]
                st.ticks += 1
                budget -= 1
                t = fails(cand) if cand else None
                if t:
                    hist, text, changed = cand, t, True
                else:
                    i += step
            step //= 2
    for i in range(len(hist)):
        for k in sorted(hist[i][0]):
            if budget <= 0 or time.time() > deadline:
                break
            if k in job.info.get('keep', ()):
                continue
            h2 = dict(hist[i][0])
            del h2[k]
            cand = hist[:i] + [(h2, hist[i][1])] + hist[i + 1:]
            st.ticks += 1
            budget -= 1
            t = fails(cand)
            if t:
                hist, text = cand, t
    return hist, text


def enc_hist(hist):
    return [[dict((k.decode('latin-1'), v.decode('latin-1'))
                  for k, v in h.items()), host] for h, host in hist]


def dec_hist(data):
    return [(dict((k.encode('latin-1'), v.encode('latin-1'))
                  for k, v in h.items()), host.encode('latin-1'))
            for h, host in data]


def watchdog(st, out_path):
    last, since = -1, time.time()
    while True:
        time.sleep(2)
        if st.ticks != last:
            last, since = st.ticks, time.time()
        elif time.time() - since > STALL:
            job, hist = st.current
            st.violations.append({
                'job': job.name, 'history': enc_hist(hist),
                'what': 'no answer within %d s: compress or decompress does '
                        'not terminate' % STALL})
            write_result(st, out_path)
            os._exit(0)


def write_result(st, out_path):
    f = open(out_path + '.tmp', 'w')
    f.write(json.dumps({
        'histories': st.histories, 'messages': st.messages,
        'states': [int(x) for x in st.states] if len(st.states) < 400000 else
                  list(st.states)[:400000],
        'wires': len(st.wires), 'samples': st.samples,
        'violations': st.violations}))
    f.close()
    os.rename(out_path + '.tmp', out_path)


def main(jobs, shard, nshards, out_path, max_violations=3, only=None):
    """Run this shard's part of all jobs."""
    st = Stats()
    st.current = (jobs[0], [])
    t = threading.Thread(target=watchdog, args=(st, out_path))
    t.setDaemon(True)
    t.start()
    big = 0
    for jn, job in enumerate(jobs):
        size = job.size()
        block = 8
        bad = 0
        for b in range(0, size, block):
            # spread blocks, and one-history jobs, over the shards
            if (b // block + jn) % nshards != shard:
                continue
            for i in range(b, min(b + block, size)):
                hist = job.history(i)
                st.current = (job, hist)
                try:
                    wires = run_history(job, hist, st)
                except Violation as v:
                    st.violations.append(None)
                    small, text = minimise(job, hist, st, v.at)
                    st.violations[-1] = {
                        'job': job.name, 'history': enc_hist(small),
                        'what': text or str(v)}
                    bad += 1
                    if len(st.violations) >= max_violations:
                        write_result(st, out_path)
                        return
                else:
                    if len(st.samples) < 2 and i == b:
                        st.samples.append({
                            'job': job.name,
                            'history': [[show(h), host]
                                        for h, host in hist[:6]],
                            'messages': len(hist),
                            'wire_hex': [w[:40].encode('hex')
                                         for w in wires[:6]]})
                if bad:
                    break
            if bad:
                break
    write_result(st, out_path)
