"""sample_exec_codec.py: the sample of an external codec."""
import itertools
import os
import signal
import subprocess
import sys
import threading
from base import need
import hist
from compressor import format_http1

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
SAMPLE = os.path.join(REPO, 'sample_exec_codec.py')
TIME = 20


def cases(tier):
    yield 'runs', []
    for n in range(1, 4 if tier == 'thorough' else 3):
        for case in hist.histories(n, 1):
            if len(case[0]) == n:
                yield 'history', case
    for a in hist.LENS:
        for is_req in (0, 1):
            yield 'history', [['long', a, 7], 0, is_req]
            yield 'history', [['many', a % 600, 7], 0, is_req]
    for pair in itertools.product(range(len(SAME)), repeat=2):
        for is_req in (0, 1):
            yield 'history', [['same'] + list(pair), 0, is_req]
    # the input ends at any octet of the last message
    for is_req in (0, 1):
        for pre in ([], [1]) if tier == 'quick' else ([], [1], [3], [0, 5]):
            for last in range(len(hist.REQ)):
                text = wire(is_req, [last])
                step = 1 if tier == 'thorough' or len(text) < 200 else 9
                for cut in range(0, len(text) + 1, step):
                    yield 'end', [pre + [last], is_req, cut]
    # whoever reads the output goes away after some answers
    for is_req in (0, 1):
        for i in range(len(hist.REQ)):
            for answers in range(3):
                yield 'deaf', [[i] * answers, is_req, i]


SAME = [['x\0x', 'y'], ['x', 'x\0y\0x'], ['', '\0'], ['x: y', 'y\0y\0y']]


def wire(is_req, which):
    return b''.join(format_http1(m).encode('utf-8')
                    for i in which for m in hist.messages([[i], 0, is_req]))


def lines_of(data):
    """Header lines; a line ends with CRLF or LF."""
    return data.replace(b'\r\n', b'\n').split(b'\n')


def answers_of(data):
    """The lines of each message (or answer), and what is left."""
    out, cur = [], []
    lines = lines_of(data)
    for line in lines[:-1]:
        if line.strip():
            cur.append(line)
        else:
            out.append(cur)
            cur = []
    return out, cur + [x for x in [lines[-1].rstrip(b'\r')] if x]


def environ():
    e = dict(os.environ)
    e['PATH'] = os.path.dirname(sys.executable) + os.pathsep + e['PATH']
    return e


def run(data, what):
    """Feeds data, then the end of the input; bounded time and output."""
    p = subprocess.Popen([sys.executable, SAMPLE], stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    timer = threading.Timer(TIME, p.kill)
    timer.start()

    def feed():
        try:
            p.stdin.write(data)
            p.stdin.close()
        except OSError:
            pass

    t = threading.Thread(target=feed, daemon=True)
    t.start()
    limit = 2 * len(data) + 1000
    got = b''
    try:
        while len(got) <= limit:
            piece = os.read(p.stdout.fileno(), 65536)
            if not piece:
                break
            got += piece
        need(len(got) <= limit, '%s: the answers do not end: %r...', what,
             got[-20:])
        p.wait()
        need(p.returncode != -signal.SIGKILL,
             '%s: still running %d s after its input ended', what, TIME)
    finally:
        timer.cancel()
        p.kill()
        p.wait()
        p.stdout.close()
        t.join()
    return got


def run_case(job, case, sink):
    sink.state((job, str(case)))
    if job == 'runs':
        need(os.access(SAMPLE, os.X_OK), 'it cannot be executed')
        return 1
    if job == 'history':
        return history(case)
    if job == 'end':
        return end(case)
    return deaf(case)


def history(case):
    if case[0][0] == 'same':
        msgs = []
        for i in case[0][1:]:
            m = dict((hist.REQ if case[2] else hist.RES)[0])
            m['m'], m['n'] = SAME[i]
            msgs.append(m)
    else:
        msgs = hist.messages(case)
    was = os.environ['PATH'], os.getcwd()
    os.environ['PATH'] = environ()['PATH']
    os.chdir(REPO)
    try:
        codec = hist.make('fork', ['sample_exec_codec.py'], bool(case[2]))
    finally:
        os.environ['PATH'] = was[0]
        os.chdir(was[1])
    try:
        for i, m in enumerate(msgs):
            sent = format_http1(m).encode('utf-8')
            box = []
            t = threading.Thread(
                target=lambda: box.append(codec.compress(dict(m), 'h')),
                daemon=True)
            t.start()
            t.join(TIME)
            need(box, 'message %d: no answer within %d s', i, TIME)
            want = answers_of(sent)[0][0]
            got = lines_of(box[0])
            need(got[-1] == b'' and got[:-1] == want,
                 'message %d: sent %r, answered %r', i, sent, box[0])
    finally:
        codec.process.kill()
        codec.process.wait()
        codec.process.stdin.close()
        codec.process.stdout.close()
    return len(msgs)


def end(case):
    which, is_req, cut = case
    data = wire(is_req, which[:-1]) + wire(is_req, which[-1:])[:cut]
    whole, rest = answers_of(data)
    got, tail = answers_of(run(data, 'input %r' % data[-40:]))
    need(got[:len(whole)] == whole, 'of %r, answered %r', data, got)
    more = [x for x in got[len(whole):] + [tail] if x]
    need(not more or more == [rest], 'after %r, answered %r', data, more)
    return len(which)


def deaf(case):
    which, is_req, last = case
    p = subprocess.Popen([sys.executable, SAMPLE], stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    timer = threading.Timer(TIME, p.kill)
    timer.start()
    try:
        for i in which:
            p.stdin.write(wire(is_req, [i]))
            p.stdin.flush()
            while (p.stdout.readline() or b'\n').strip():
                pass
        p.stdout.close()
        try:
            for _ in range(3):
                p.stdin.write(wire(is_req, [last]))
                p.stdin.flush()
        except OSError:
            pass
        p.wait()
        need(p.returncode != -signal.SIGKILL,
             'still running %d s after its output was closed', TIME)
    finally:
        timer.cancel()
        p.kill()
        p.wait()
        try:
            p.stdin.close()
        except OSError:
            pass
    return len(which) + 1
