"""fork: exactly the child's answer, for exactly the message, in order."""
import hashlib
import itertools
import os
import shutil
import tempfile
from base import Bad, need, norm
import hist

CHILD = '''#!%s -ESB
import hashlib, os, sys, time
plan = %r
for answer, cuts in plan:
    got = b''
    while not got.endswith(b'\\r\\n\\r\\n'):
        piece = os.read(0, 65536)
        if not piece:
            sys.exit(0)
        got += piece
    mark = hashlib.sha1(got).hexdigest().encode('ascii')
    open(%r, 'ab').write(b'%%d ' %% len(got) + got)
    answer = answer.replace(b'@' * 40, mark)
    last = 0
    for c in list(cuts) + [len(answer)]:
        while last < c:
            last += os.write(1, answer[last:c])
        time.sleep(0.0015)
while os.read(0, 65536):
    pass
'''
MARK = b'@' * 40
# (what the child writes, what the codec must return) before framing
TEXTS = [
    (b'x: y\r\n' + MARK + b'\r\n', b'\r\n'),
    (MARK + b'\n', b'\n'),
    (b'a\nb\n' + MARK + b'\nc\n', b' \r\n'),
    (b'', b'\n'),
    (MARK + b'\n' + b'z' * 70000 + b'\n', b'\r\n'),
    (b'\xe9\xff ' + MARK + b'\r\n', b'\n'),
]
BINS = [
    MARK,
    b'',
    b'\n\n\r\n\r\n' + MARK + b'\n',
    b'\0' * 9 + MARK + b'\xff' * 8,
    MARK + b'q' * 200000,
    MARK + b'\r\n' * 128,
]


def frame(binary, i):
    if binary:
        body = BINS[i]
        return len(body).to_bytes(8, 'little') + body, body
    text, blank = TEXTS[i]
    return text + blank, text


def cases(tier):
    deep = tier == 'thorough'
    for binary in (0, 1):
        n = 6
        for k in (1, 2, 3, 4) if deep else (1, 2, 3):
            for c in itertools.product(range(n), repeat=k):
                yield 'answers', [binary, c, 'whole']
        for i in range(n):
            whole = len(frame(binary, i)[0])
            spots = range(1, min(whole, 200 if deep else 130))
            # every split in two, several per child
            for at in range(0, len(spots), 12):
                yield 'splits', [binary, i, list(spots)[at:at + 12]]
            for step in (1, 2, 3, 7) if whole < 500 else (4096, 65536):
                yield 'answers', [binary, [i, (i + 1) % n], step]
        for i in range(n):
            yield 'named', [binary, i]
    for c in itertools.product((0, 1), repeat=7 if deep else 6):
        for binary in (0, 1):
            yield 'two', [binary, c]


class Child(object):
    def __init__(self, tmp, name, binary, plan, is_req, given=None):
        self.log = os.path.join(tmp, name + '.log')
        path = os.path.join(tmp, name)
        with open(path, 'w') as f:
            f.write(CHILD % ('/opt/venv/bin/python', plan, self.log))
        os.chmod(path, 0o755)
        self.codec = hist.make('fork', [given or path] + (['bin'] if binary else []),
                               is_req)
        self.is_req = is_req
        self.sent = []

    def send(self, m, want):
        was = dict(m)
        got = self.codec.compress(m, 'h')
        need(m == was, 'compress changed its input')
        need(isinstance(got, bytes), 'the answer is %s', type(got).__name__)
        self.sent.append(m)
        with open(self.log, 'rb') as f:
            log = f.read()
        blocks = []
        while log:
            n, log = log.split(b' ', 1)
            blocks.append(log[:int(n)])
            log = log[int(n):]
        need(len(blocks) == len(self.sent), 'the child got %d messages after '
             '%d', len(blocks), len(self.sent))
        need(hist.parse_text(blocks[-1].decode('utf-8'), self.is_req) ==
             norm(m), '%r reached the child as %r', m, blocks[-1])
        want = want.replace(MARK, hashlib.sha1(blocks[-1]).hexdigest()
                            .encode('ascii'))
        need(got == want, 'the child answered %r (%d octets), the codec '
             'returned %r (%d)', want[:80], len(want), got[:80], len(got))

    def close(self):
        for p in list(vars(self.codec).values()):
            if hasattr(p, 'kill') and hasattr(p, 'wait'):
                p.kill()
                p.wait()
                for f in (p.stdin, p.stdout):
                    try:
                        f.close()
                    except Exception:
                        pass


def run_case(job, case, sink):
    tmp = tempfile.mkdtemp(prefix='verif-fork-')
    children = []
    sink.state((job, str(case)))
    try:
        if job == 'answers':
            binary, c, step = case
            plan = []
            for i in c:
                a = frame(binary, i)[0]
                plan.append((a, [] if step == 'whole' else
                             list(range(step, len(a), step))[:200]))
            child = Child(tmp, 'child', binary, plan, True)
            children.append(child)
            for k, i in enumerate(c):
                child.send(hist.REQ[(k + i) % len(hist.REQ)],
                           frame(binary, i)[1])
            return len(c)
        if job == 'splits':
            binary, i, spots = case
            a, want = frame(binary, i)
            child = Child(tmp, 'child', binary, [(a, [x]) for x in spots],
                          False)
            children.append(child)
            for k in range(len(spots)):
                child.send(hist.RES[k % len(hist.RES)], want)
            return len(spots)
        if job == 'named':
            # a program in the current directory, called like the option
            binary, i = case
            os.chdir(tmp)
            a, want = frame(binary, i)
            child = Child(tmp, 'bin', binary, [(a, [])], True, 'bin')
            children.append(child)
            child.send(hist.REQ[i], want)
            return 1
        if job == 'two':
            binary, order = case
            plans = [[(frame(binary, (2 * k + 1 - side) % 3)[0], [k + 1])
                      for k in range(len(order))] for side in (0, 1)]
            children = [Child(tmp, 'c%d' % s, binary, plans[s], not s)
                        for s in (0, 1)]
            count = [0, 0]
            for s in order:
                k = count[s]
                count[s] += 1
                children[s].send((hist.REQ, hist.RES)[s][k],
                                 frame(binary, (2 * k + 1 - s) % 3)[1])
            return len(order)
        raise Bad('unknown job')
    finally:
        os.chdir('/')
        for c in children:
            c.close()
        shutil.rmtree(tmp, ignore_errors=True)
