"""worker.py MODULE TIER SHARD NSHARDS OUT [REPLAY.json]   (CPython 3)

A module has cases(tier), yielding (job, case) with JSON-able cases, and
run_case(job, case, sink), which raises on a violation and returns the number
of steps."""
import json
import os
import sys
import threading
import time
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
sys.path[:0] = [REPO, HERE, os.path.join(os.path.dirname(HERE), 'jy')]
STALL = 30.0


class Null(object):
    def write(self, *a):
        pass

    def flush(self):
        pass


def exc():
    t, v, tb = sys.exc_info()
    if t.__name__ == 'Bad':
        return str(v)
    last = traceback.extract_tb(tb)[-1]
    return '%s: %s (%s:%s)' % (t.__name__, str(v)[:200],
                               os.path.basename(str(last[0])), last[1])


class Sink(object):
    def __init__(self, out, shard, nshards, limit=3):
        self.out, self.shard, self.nshards = out, shard, nshards
        self.limit = limit
        self.traces = self.steps = self.ticks = 0
        self.states, self.samples, self.violations = set(), [], []
        self.case = None
        self.extra = {}
        self.done = False

    def state(self, x):
        self.states.add(hash(x))

    def watch(self):
        last, since = -1, time.time()
        while not self.done:
            time.sleep(1)
            if self.ticks != last or self.case is None:
                last, since = self.ticks, time.time()
            elif time.time() - since > STALL:
                self.bad('no answer within %d s' % STALL)
                self.write()
                os._exit(0)

    def bad(self, what):
        job, case = self.case
        self.violations.append({'job': job, 'case': case, 'what': what})
        return len(self.violations) >= self.limit

    def write(self):
        self.done = True
        with open(self.out + '.tmp', 'w') as f:
            json.dump({'histories': self.traces, 'messages': self.steps,
                       'states': list(self.states), 'wires': 0,
                       'samples': self.samples, 'extra': self.extra,
                       'violations': self.violations}, f)
        os.rename(self.out + '.tmp', self.out)


def jsonable(case):
    return json.loads(json.dumps(case))


def load(module, sink):
    """A failure to import code of /repo is a violation of its own."""
    try:
        return __import__(module)
    except BaseException:
        tb = traceback.extract_tb(sys.exc_info()[2])
        if os.path.realpath(str(tb[-1][0])).startswith(REPO):
            sink.case = ('import', module)
            sink.bad('the code cannot be imported: ' + exc())
            return None
        raise


def main():
    module, tier, shard, nshards, out = sys.argv[1:6]
    real = sys.stdout
    sys.stdout = Null()
    sink = Sink(out, int(shard), int(nshards))
    mod = load(module, sink)
    if len(sys.argv) > 6:
        data = json.load(open(sys.argv[6]))
        text = None
        if mod is None:
            text = sink.violations[0]['what']
        else:
            try:
                if data['job'] == 'preparation':
                    t, sink.shard, sink.nshards = data['case']
                    explore(mod, t, sink)
                else:
                    mod.run_case(data['job'], data['case'], sink)
            except BaseException:
                text = exc()
        sys.stdout = real
        print('FAILS: ' + text if text else 'holds')
        sys.exit(1 if text else 0)
    if mod is None:
        sink.write()
        return
    threading.Thread(target=sink.watch, daemon=True).start()
    try:
        explore(mod, tier, sink)
    except BaseException:
        # outside of any case: while a case was being prepared
        tb = traceback.extract_tb(sys.exc_info()[2])
        if not os.path.realpath(str(tb[-1][0])).startswith(REPO):
            raise
        sink.case = ('preparation', [tier, sink.shard, sink.nshards])
        sink.bad('code of the repository failed while a case was prepared: ' +
                 exc())
    sink.write()


def explore(mod, tier, sink):
    i, stop = 0, set()
    for job, case in mod.cases(tier):
        i += 1
        if i % sink.nshards != sink.shard or job in stop:
            continue
        case = jsonable(case)
        sink.case = (job, case)
        sink.traces += 1
        sink.ticks += 1
        try:
            sink.steps += mod.run_case(job, case, sink) or 1
        except BaseException:
            stop.add(job)
            if sink.bad(exc()):
                break
        else:
            if i % 997 == 1 and len(sink.samples) < 2:
                sink.samples.append({'job': job, 'case': case})


if __name__ == '__main__':
    sys.modules['worker'] = sys.modules['__main__']
    main()
