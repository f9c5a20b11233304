"""Recorded sizes, totals and their printed forms."""
import itertools
import math
from base import Bad, need
from functools import reduce
import operator
from lib.stream import Stream

PROCS = ['http1', 'delta2 (a=1, b)', 'x']
SIZES = [1, 7, 100, 1234567]


def cases(tier):
    for n in range(3):
        for base in range(len(PROCS)):
            yield 'empty', [n, base]
    deep = tier == 'thorough'
    for n in range(1, 6 if deep else 5):
        for c in itertools.product(range(len(SIZES)), repeat=n):
            for rot in range(3):
                yield 'summary', [c, rot]
    for k in range(1, 6 if deep else 5):       # streams
        for lens in itertools.product(range(1, 4), repeat=k):
            for order in ('left', 'right', 'each', 'sum'):
                yield 'sum', [lens, order]
    for k in range(1, 4):
        for lens in itertools.product(range(0, 4), repeat=k):
            yield 'tsv', lens


def size(stream, i, p):
    """Some size for message i of the stream and codec number p."""
    return (stream * 37 + i * 11 + p * 5) % 90 + 1 + 1000 * (stream % 2)


def build(number, n, kind='req'):
    s = Stream('s%d.org' % number,
               [({'n': '%d.%d' % (number, i)}, 'h') for i in range(n)], kind,
               list(PROCS))
    for i in range(n):
        for p, name in enumerate(PROCS):
            s.record_result(name, size(number, i, p),
                            float(size(number, i, p)) / size(number, i, 0),
                            0.25 * p)
    return s


def table(stream, baseline):
    """Parses the printed summary."""
    out = []
    stream.print_summary(out.append, baseline)
    lines = ''.join(out).split('\n')
    need(len(lines) >= 2 and lines[0].split() ==
         ['size', 'time', '|', 'ratio', 'min', 'max', 'std'],
         'heading %r', lines[0])
    rows = {}
    need(lines[-2:] == ['', ''], 'the table ends with %r', lines[-2:])
    for line in lines[1:]:
        if not line.strip():
            continue
        need(line.index('|') == lines[0].index('|'), 'columns are not '
             'aligned: %r', lines)
        left, right = line.split('|')
        name, sz, tm = left.rsplit(None, 2)
        need(name.strip() not in rows, 'two rows for %r', name)
        rows[name.strip()] = [int(sz.replace(',', '')), float(tm)] + \
            [float(x) for x in right.split()]
    return rows


def near(a, b):
    return abs(a - b) <= 0.0051


def std(xs):
    if len(xs) < 2:
        return 0.0
    m = sum(xs) / len(xs)
    return math.sqrt(sum((x - m) ** 2 for x in xs) / (len(xs) - 1))


def check_table(rows, recs, baseline):
    """recs: {codec: [(size, ratio, time)]}"""
    need(set(rows) == set(recs), 'rows %r, expected %r', sorted(rows),
         sorted(recs))
    base = float(sum(r[0] for r in recs[baseline]))
    for name, rec in recs.items():
        total = sum(r[0] for r in rec)
        ratios = [r[1] for r in rec]
        want = [total, sum(r[2] for r in rec), total / base, min(ratios),
                max(ratios), std(ratios)]
        need(len(rows[name]) == 6 and rows[name][0] == total and
             all(near(a, b) for a, b in zip(rows[name][1:], want[1:])),
             '%s: printed %r, expected %r', name, rows[name], want)


def records(numbers):
    recs = {p: [] for p in PROCS}
    for number, n in numbers:
        for i in range(n):
            for p, name in enumerate(PROCS):
                recs[name].append((size(number, i, p), float(
                    size(number, i, p)) / size(number, i, 0), 0.25 * p))
    return recs


def snapshot(s):
    return (s.name, list(s.messages), s.msg_type, list(s.procs),
            {k: list(v) for k, v in s.sizes.items()},
            {k: list(v) for k, v in s.ratios.items()},
            {k: list(v) for k, v in s.times.items()})


def run_case(job, case, sink):
    sink.state((job, str(case)))
    if job == 'empty':
        # nothing recorded: a report without figures, and no crash
        n, base = case
        s = Stream('name', [], 'req', list(PROCS))
        for k in range(n):
            s += Stream('n%d' % k, [], 'req', list(PROCS))
        out = []
        s.print_header(out.append)
        s.print_summary(out.append, PROCS[base])
        text = ''.join(out)
        need('0 req messages' in text and not any(
            x in '123456789' for x in text.split('messages')[1]),
            'the report of an empty stream is %r', text)
        rows = []
        need(s.print_tsv(rows.append, 7) in (7, None) and not rows,
             'rows %r for no messages', rows)
        return 1
    if job == 'summary':
        c, rot = case
        s = Stream('name', [({}, 'h')] * len(c), 'res', list(PROCS))
        recs = {p: [] for p in PROCS}
        for i, x in enumerate(c):
            for p, name in enumerate(PROCS):
                sz = SIZES[(x + p * rot) % len(SIZES)]
                base = SIZES[x]
                rec = (sz, 1.0 * sz / base, 0.01 * (p + i))
                recs[name].append(rec)
                s.record_result(name, *rec)
        check_table(table(s, PROCS[0]), recs, PROCS[0])
        out = []
        s.print_header(out.append)
        need(''.join(out).split() == ['*', 'name:', str(len(c)), 'res',
                                      'messages'], 'header %r', ''.join(out))
        return len(c)
    if job == 'sum':
        lens, order = case
        streams = [build(k, n) for k, n in enumerate(lens)]
        before = [snapshot(s) for s in streams]
        if order == 'left' or len(streams) < 2:
            total = reduce(operator.add, streams)
        elif order == 'sum':
            total = sum(streams)
        elif order == 'right':
            total = streams[-1]
            for s in reversed(streams[:-1]):
                total = s + total
        else:
            total = None
            for s in streams:
                total = s if total is None else total + s
        recs = records(list(enumerate(lens)))
        check_table(table(total, PROCS[0]), recs, PROCS[0])
        out = []
        total.print_header(out.append)
        need(str(sum(lens)) in ''.join(out).split(), 'header %r for %d '
             'messages', ''.join(out), sum(lens))
        for s, was in zip(streams, before):
            need(snapshot(s) == was, 'adding changed stream %s: %r became %r',
                 was[0], was[1], snapshot(s)[1])
        return len(lens)
    if job == 'tsv':
        streams = [build(k, n) for k, n in enumerate(case)]
        out = []
        count = 0
        streams[0].print_tsv_header(out.append)
        for s in streams:
            count = s.print_tsv(out.append, count) if count else \
                s.print_tsv(out.append)
        rows = ''.join(out).split('\n')
        need(rows.pop() == '', 'the last line is not ended')
        want = ['\t'.join(['num', 'name'] + PROCS)]
        num = 0
        for k, n in enumerate(case):
            for i in range(n):
                num += 1
                want.append('\t'.join([str(num), 's%d.org' % k] + [
                    str(size(k, i, p)) for p in range(len(PROCS))]))
        need(rows == want, 'rows %r, expected %r', rows, want)
        need(count == num, 'count %r after %d messages', count, num)
        return num + 1
    raise Bad('unknown job')
