"""display_tsv.html: the page shows what the TSV files say."""
import itertools
import json
import os
import re
import subprocess
from base import need
from lib.stream import Stream

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
HERE = os.path.dirname(os.path.abspath(__file__))
PROCS = ['http1', 'spdy3', 'http2 (buffer=1000, a)', 'delta2', 'simple',
         'fork (x)', 'delta', 'headerdiff', 'bohe', '10']
NAMES = ['a.com:80 reqs', 'b c', '7', 'TOTAL', 'num', "x'y"]
NODE = []


def cases(tier):
    five, three = [0, 1, 9, 10, 250], [0, 9, 250]
    spaces = [(1, 3, five), (2, 2, five), (2, 3, three), (3, 2, three)]
    if tier == 'thorough':
        spaces = [(1, 5, five), (2, 3, five), (3, 3, three)]
    # every table of sizes, one stream
    for cols, most, sizes in spaces:
        for rows in range(1, most + 1):
            for t in itertools.product(sizes, repeat=cols * rows):
                table = [t[i * cols:(i + 1) * cols] for i in range(rows)]
                yield 'table', [cols, [[0, table]]]
    # every way to divide messages into streams
    for n in range(1, 8 if tier == 'thorough' else 7):
        for cuts in itertools.product((0, 1), repeat=n - 1):
            for cols in (1, 2, 3):
                for shift in (0, 1):
                    yield 'streams', [cols, divide(cuts, cols, shift)]
    # every number of codecs and of messages, counts and sizes of any length
    for cols in range(1, len(PROCS) + 1):
        for rows in [1, 2, 3, 9, 10, 11, 12, 99, 100, 101, 130]:
            for big in (1, 1000, 99999):
                yield 'large', [cols, [[rows % len(NAMES), [
                    [(r * 7 + c * 13) % 31 * big for c in range(cols)]
                    for r in range(rows)]]]]


def divide(cuts, cols, shift):
    out, row = [[shift, []]], 0
    for cut in (0,) + cuts:
        if cut:
            out.append([(out[-1][0] + 1) % len(NAMES), []])
        out[-1][1].append([(row * 3 + c * 5) % 11 for c in range(cols)])
        row += 1
    return out


def text_of(cols, streams, msg_type):
    out = []
    procs = PROCS[:cols]
    Stream('', [], msg_type, procs).print_tsv_header(out.append)
    count = 0
    for name, table in streams:
        s = Stream(NAMES[name], [None] * len(table), msg_type, procs)
        for row in table:
            for p, size in zip(procs, row):
                s.record_result(p, size, 1.0, 0.1)
        count = s.print_tsv(out.append, count)
    return ''.join(out)


def page(files):
    if not NODE:
        NODE.append(subprocess.Popen(
            ['node', os.path.join(HERE, 'page.js'),
             os.path.join(REPO, 'display_tsv.html')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            universal_newlines=True, encoding='utf-8'))
    NODE[0].stdin.write(json.dumps(files) + '\n')
    NODE[0].stdin.flush()
    line = NODE[0].stdout.readline()
    need(line, 'the page ended the interpreter')
    return json.loads(line)


def walk(e, dx=0.0, dy=0.0):
    """Every element below e, with where its origin is."""
    m = re.search(r'translate\(\s*([-\d.e+NaInfity]+)[ ,]+([-\d.e+NaInfity]+)'
                  r'\s*\)', e['attrs'].get('transform', ''))
    if m:
        dx += float(m.group(1))
        dy += float(m.group(2))
    yield e, dx, dy
    for k in e['kids']:
        for x in walk(k, dx, dy):
            yield x


def close(a, b):
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def run_case(job, case, sink):
    cols, streams = case
    sink.state((job, str(case)))
    other = [[n + 1 & 1, [r[::-1] for r in t[::-1]]] for n, t in streams[::-1]]
    got = page({'req.tsv': text_of(cols, streams, 'req'),
                'res.tsv': text_of(cols, other, 'res')})
    need('error' not in got, 'the page fails: %s', got.get('error'))
    svgs = [k for k in got['body']['kids'] if k['tag'] == 'svg']
    need(len(svgs) == 2, '%d charts', len(svgs))
    for svg, title, data in zip(svgs, ('Requests', 'Responses'),
                                (streams, other)):
        chart(svg, title, cols, data)
    return 2


def chart(svg, title, cols, streams):
    w, h = float(svg['attrs']['width']), float(svg['attrs']['height'])
    rows, firsts, last = [], [], None
    for name, table in streams:
        for row in table:
            rows.append(row)
            if NAMES[name] != last:
                firsts.append((len(rows), NAMES[name]))
                last = NAMES[name]
    els = list(walk(svg))
    texts = [x for x in els if x[0]['tag'] == 'text' and x[0]['text']]
    need(any(t['text'] == title for t, _, _ in texts), 'no title %r', title)
    paths = [x for x in els if x[0]['tag'] == 'path' and
             x[0]['attrs'].get('d', '').startswith('[')]
    need(len(paths) == cols, '%d lines for %d codecs', len(paths), cols)
    colours, at = {}, {}
    for e, dx, dy in paths:
        colour = e['styles'].get('stroke') or e['attrs'].get('stroke')
        colours.setdefault(colour, []).append(
            [(x + dx, y + dy) for x, y in json.loads(
                e['attrs']['d'].replace('null', 'NaN'))])
    need(len(colours) == cols and None not in colours,
         '%d colours for %d codecs', len(colours), cols)
    # the label of a line has its colour and is at its end
    for t, dx, dy in texts:
        if t['text'] in PROCS[:cols]:
            colour = t['styles'].get('fill') or t['attrs'].get('fill')
            if colour in colours:
                need(t['text'] not in at, 'two labels %r', t['text'])
                at[t['text']] = colours[colour][0]
                end = at[t['text']][-1:]
                need(end and close(end[0][1], dy) and close(end[0][0], dx),
                     'label %r at %r, its line ends at %r', t['text'],
                     (dx, dy), end)
    need(len(at) == cols, 'labels for %r', sorted(at))
    need(len(set(map(id, at.values()))) == cols, 'two labels of one line')
    # x grows with the number, y shrinks with the size; one scale for all
    xs, ys = {}, {}
    for c, p in enumerate(PROCS[:cols]):
        need(len(at[p]) == len(rows), '%d points for %d messages', len(at[p]),
             len(rows))
        for n, (x, y) in enumerate(at[p]):
            need(0 <= x <= w and 0 <= y <= h,
                 'a point of %r at %r, the chart is %r', p, (x, y), (w, h))
            need(close(xs.setdefault(n + 1, x), x), 'message %d is at %r and '
                 '%r', n + 1, xs[n + 1], x)
            v = rows[n][c]
            need(close(ys.setdefault(v, y), y), 'the size %d is at %r and %r',
                 v, ys[v], y)
    affine(xs, 1, 'message')
    affine(ys, -1, 'size')
    # the axes
    axes = {e['attrs']['orient']: (json.loads(e['attrs']['domain']),
                                   json.loads(e['attrs']['range']), dx, dy)
            for e, dx, dy in els if e['tag'] == 'axis'}
    need(set(axes) == {'bottom', 'left'}, 'axes %r', sorted(axes))
    for side, pos, k in (('bottom', xs, 2), ('left', ys, 3)):
        dom, ran = [float(v) for v in axes[side][0]], axes[side][1]
        for v, p in pos.items():
            if dom[1] != dom[0]:
                q = ran[0] + (v - dom[0]) / (dom[1] - dom[0]) * (
                    ran[1] - ran[0]) + axes[side][k]
                need(close(p, q), 'the %s axis has %d at %r, the line at %r',
                     side, v, q, p)
    # where each stream begins
    got = []
    for t, dx, dy in texts:
        if t['attrs'].get('transform', '').startswith('rotate(-90') and \
                t['attrs'].get('y') is not None and \
                t['attrs'].get('text-anchor') == 'end':
            got.append((float(t['attrs']['y']) + dx, t['text']))
    need([x[1] for x in got] == [x[1] for x in firsts],
         'streams %r are marked as %r', firsts, got)
    for (x, name), (n, _) in zip(got, firsts):
        need(close(x, xs[n]), 'stream %r is marked at %r, its first message '
             'is at %r', name, x, xs[n])


def affine(pos, sign, what):
    keys = sorted(pos)
    for a, b in zip(keys, keys[1:]):
        need((pos[b] - pos[a]) * sign > 0, '%s %d at %r, %d at %r', what, a,
             pos[a], b, pos[b])
        slope = (pos[keys[-1]] - pos[keys[0]]) / (keys[-1] - keys[0])
        need(close(pos[b], pos[keys[0]] + slope * (b - keys[0])),
             'the %s scale is not even at %d', what, b)
