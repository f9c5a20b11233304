"""Counters, violations and the watchdog for explorations that are not message
histories (runs under Jython 2.7)."""
import json
import os
import sys
import threading
import time
import traceback
from engine import Failure

STALL = 30.0


class Bad(Exception):
    pass


def exc():
    t, v, tb = sys.exc_info()
    if t is Bad:
        return str(v)
    last = traceback.extract_tb(tb)[-1]
    return '%s: %s (%s:%s)' % (getattr(t, '__name__', t), str(v)[:200],
                               os.path.basename(str(last[0])), last[1])


class Sink(object):
    def __init__(self, out, shard=0, nshards=1, limit=3):
        self.out = out
        self.shard = shard
        self.nshards = nshards
        self.limit = limit
        self.traces = 0
        self.steps = 0
        self.states = set()
        self.violations = []
        self.samples = []
        self.ticks = 0
        self.case = None        # (job, case) under execution
        self.extra = {}
        self.done = False
        if out:
            t = threading.Thread(target=self.watch)
            t.setDaemon(True)
            t.start()

    def mine(self, i):
        return i % self.nshards == self.shard

    def begin(self, job, case):
        self.case = (job, case)
        self.traces += 1
        self.ticks += 1

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)

    def bad(self, what):
        """True when the exploration should stop."""
        job, case = self.case
        self.violations.append({'job': job, 'case': case, 'what': what})
        return len(self.violations) >= self.limit

    def watch(self):
        last, since = -1, time.time()
        while not self.done:
            time.sleep(1)
            if self.ticks != last or self.case is None:
                last, since = self.ticks, time.time()
            elif time.time() - since > STALL:
                self.bad('no answer within %d s' % STALL)
                self.write()
                os._exit(0)

    def write(self):
        self.done = True
        f = open(self.out + '.tmp', 'w')
        f.write(json.dumps({
            'histories': self.traces, 'messages': self.steps,
            'states': [x if isinstance(x, (int, long)) else hash(x)
                       for x in self.states],
            'wires': 0, 'samples': self.samples, 'extra': self.extra,
            'violations': self.violations}))
        f.close()
        os.rename(self.out + '.tmp', self.out)


def replay_with(run_case, data):
    """Re-runs one case; returns the text of the violation or None."""
    try:
        run_case(data['job'], data['case'])
    except Failure:
        return exc()
    return None


def drive(sink, cases, run_case):
    """cases: iterable of (job, case); run_case raises on a violation and
    returns the number of steps."""
    i = 0
    stop = set()
    for job, case in cases:
        i += 1
        if not sink.mine(i):
            continue
        if job in stop:
            continue
        sink.begin(job, case)
        try:
            sink.steps += run_case(job, case) or 1
        except Failure:
            stop.add(job)
            if sink.bad(exc()):
                break
        else:
            if i % 997 == 1:
                sink.sample({'job': job, 'case': case})
    sink.write()
