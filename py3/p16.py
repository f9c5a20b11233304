"""The command line tool from capture files to report and TSV files."""
import io
import itertools
import json
import os
import shutil
import sys
import tempfile
from importlib import import_module
from base import Bad, need
import p14                      # registers the recording codecs
from p15 import near, std
import compare_compressors
from lib.harfile import read_har_file

# url, extra request headers, extra response headers
ENTRIES = [
    ('http://www.example.com/a?b=1', [('Accept', 'x/y'), ('Cookie', 'a=1')],
     [('Content-Type', 'text/html'), ('Set-Cookie', 'q=1'),
      ('Set-Cookie', 'r=2')]),
    ('https://img.example.com:8443/b', [('Connection', 'Foo'), ('Foo', '1')],
     [('Server', 'Apache' * 9)]),
    ('http://other.co.uk/', [('Accept', 'x/y'), ('Host', 'www.example.com')],
     []),
    ('ftp://www.example.com/a', [], []),
]
LINEUPS = [
    # codecs, baseline, and (index of the) baseline's name
    ([], None), (['spdy3'], None), (['http1', 'hyper_hpack'], None),
    (['hyper_hpack', 'http1'], None),
    (['vfake_good', 'vfake_big'], None), (['vfake_big=p,  q'], 'vfake_good'),
    (['vfake_good'], 'vfake_big=p=1'), (['http1_gzip'], 'http1_huffman'),
    (['spdy3=dict', 'vfake_lossy=n=2'], 'http1_gzip'),
    (['vfake_nodec', 'vfake_good', 'vfake_alter'], 'vfake_good'),
    (['spdy3'], 'spdy3=dict'), (['vfake_invent="n=1, y"'], 'http1'),
]
FILES = [
    [[]], [[3]], [[3], [3, 3]],
    [[0]], [[2]], [[0, 1]], [[1, 0, 2, 0]], [[0], [0]], [[0, 3], [2, 1]],
    [[1, 1, 1], [0], [2, 0]], [[3, 0, 3, 2, 3, 1]],
    # -k: the capture with number k once more
    [[0, 2], -1], [[1], [0, 0], -1, -2], [[3], [0]], [[2], [3, 3], [0], -1],
]
STREAMIFIERS = ['all_one', 'host', 'public_suffix']


def cases(tier):
    deep = tier == 'thorough'
    for f in range(len(FILES)):
        for l in range(len(LINEUPS)):
            for s in range(3):
                for tsv in (0, 1, 2, 3):
                    yield 'cli', [FILES[f], l, s, tsv, 0]
                for v in range(1, 6) if deep else (1, 2 + (f + l + s) % 4):
                    yield 'cli', [FILES[f], l, s, 1, v]
    for n in range(1, 6 if deep else 5):
        for c in itertools.product(range(3), repeat=n):
            for s in range(3):
                for cut in range(1, n + 1):
                    files = [list(c)] if cut == n else [list(c[:cut]),
                                                        list(c[cut:])]
                    for l in (4, 8):
                        yield 'cli', [files, l, s, 1, 1]


def har(indices):
    entries = []
    for n, i in enumerate(indices):
        url, rq, rs = ENTRIES[i]
        def fields(h, x):
            return [{'name': k, 'value': v} for k, v in h + [('X-N', x)]]
        entries.append({
            'request': {'url': url, 'method': 'GET', 'httpVersion': 'HTTP/1.1',
                        'headers': fields(rq, 'q%d' % n)},
            'response': {'status': 200 + n, 'statusText': '',
                         'httpVersion': 'HTTP/1.1',
                         'headers': fields(rs, 's' * n)}})
    return {'log': {'entries': entries}}


KEYS = {'all_one': lambda i: 'all',
        'host': lambda i: ['www.example.com', 'img.example.com:8443',
                           'www.example.com'][i],
        'public_suffix': lambda i: 'example.com'}


def name_of(spec):
    if '=' not in spec:
        return spec, []
    mod, params = spec.split('=', 1)
    params = [p.strip() for p in params.strip('"').split(',')]
    return mod, params


def full(spec):
    mod, params = name_of(spec)
    return mod + (' (%s)' % ', '.join(params) if params else '')


class Opt(object):
    verbose = 0
    debug = False


def sections(text):
    """[(name, count, type, table text)] of the printed report"""
    out, cur = [], None
    for line in text.split('\n'):
        if line.startswith('* ') and line.endswith(' messages'):
            name, rest = line[2:].rsplit(':', 1)
            count, kind = rest.split()[:2]
            cur = [name, int(count), kind, []]
            out.append(cur)
        elif cur is not None and line.startswith('  ') and '|' in line:
            cur[3].append(line)
    return out


def rows_of(lines):
    need(lines and lines[0].split()[:2] == ['size', 'time'], 'no table: %r',
         lines)
    rows = {}
    for line in lines[1:]:
        left, right = line.split('|')
        nm, sz, _ = left.rsplit(None, 2)
        need(nm.strip() not in rows, 'two rows for %r', nm)
        rows[nm.strip()] = [int(sz.replace(',', ''))] + \
            [float(x) for x in right.split()]
    return rows


def check_rows(where, rows, sizes, names, base):
    if not sizes[base]:
        # no messages: no figures
        need(not rows or not any(r[0] for r in rows_of(rows).values()),
             '%s: rows %r', where, rows)
        return
    rows = rows_of(rows)
    need(sorted(rows) == sorted(names), '%s: rows %r, expected %r', where,
         sorted(rows), sorted(names))
    for nm in names:
        ratios = [1.0 * a / b for a, b in zip(sizes[nm], sizes[base])]
        want = [sum(sizes[nm]), 1.0 * sum(sizes[nm]) / sum(sizes[base]),
                min(ratios), max(ratios), std(ratios)]
        need(rows[nm][0] == want[0] and len(rows[nm]) == 5 and
             all(near(a, b) for a, b in zip(rows[nm][1:], want[1:])),
             '%s: %s: printed %r, expected %r', where, nm, rows[nm], want)


def run_case(job, case, sink):
    files, l, s, tsv, verbose = case
    codecs, baseline = LINEUPS[l]
    sink.state(str(case))
    specs = list(codecs)
    base = baseline or 'http1'
    if base not in specs:
        specs = [base] + specs
    names = [full(x) for x in specs]
    tmp = tempfile.mkdtemp(prefix='verif-cli-')
    cwd = os.getcwd()
    argv, err = sys.argv, sys.stderr
    try:
        os.chdir(tmp)
        args = []
        for c in codecs:
            args += ['-c', c]
        if baseline:
            args += ['-b', baseline]
        if s != 2 or tsv:
            args += ['-s', STREAMIFIERS[s]]    # public_suffix is the default
        if tsv:
            args += ['-t']
        if tsv == 2:
            args += ['--prefix', 'pre-']
        if tsv == 3:
            os.mkdir('sub')
            args += ['--prefix', 'sub/x']
        if verbose:
            args += ['-v', str(verbose)]
        paths = []
        for n, f in enumerate(files):
            if not isinstance(f, (list, tuple)):
                paths.append(paths[-f - 1])
                continue
            paths.append(os.path.join(tmp, 'f%d.har' % n))
            with open(paths[-1], 'w') as fh:
                json.dump(har(f), fh)
        out = []
        sys.argv = ['compare_compressors.py'] + args + paths
        sys.stderr = io.StringIO()
        try:
            compare_compressors.CompressionTester(out.append)
        except SystemExit as e:
            raise Bad('the tool ended with %r' % e.code)
        finally:
            sys.argv, sys.stderr = argv, err
        text = ''.join(out)
        made = {}
        for at, _, inside in os.walk(tmp):
            for n in inside:
                n = os.path.relpath(os.path.join(at, n), tmp)
                if not n.endswith('.har'):
                    with open(os.path.join(tmp, n)) as fh:
                        made[n] = fh.read()
        files = [f if isinstance(f, (list, tuple)) else files[-f - 1]
                 for f in files]
        # the expected streams
        streams = []
        for f, path in zip(files, paths):
            reqs, ress = read_har_file(path)
            http = [i for i in f if i != 3]
            need(len(reqs) == len(ress) == len(http), 'messages of %r', f)
            order, groups = [], {}
            if STREAMIFIERS[s] == 'all_one':
                order, groups = ['all'], {'all': []}
            for n, i in enumerate(http):
                k = KEYS[STREAMIFIERS[s]](i)
                if k not in groups:
                    order.append(k)
                    groups[k] = []
                groups[k].append(n)
            for k in order:
                for kind, msgs in (('req', reqs), ('res', ress)):
                    streams.append((k, kind, [
                        (msgs[n], reqs[n][':host']) for n in groups[k]]))
        results = []
        for nm, kind, msgs in streams:
            sizes = {}
            for spec, full_name in zip(specs, names):
                mod, params = name_of(spec)
                codec = import_module('compressor.' + mod).Processor(
                    Opt(), kind == 'req', params)
                sizes[full_name] = [
                    len(codec.compress(p14.wanted(h), host))
                    for h, host in msgs]
                if hasattr(codec, 'kind'):
                    # the recording codecs count their messages
                    sizes[full_name] = [len(json.dumps(sorted(
                        p14.wanted(h).items()))) + (
                            7 * (n + 1) if codec.kind == 'big' else 0)
                        for n, (h, _) in enumerate(msgs)]
            results.append((nm, kind, len(msgs), sizes))
        secs = sections(text)
        if verbose == 0:
            need(len(secs) == 2, '%d sections printed', len(secs))
        need(sum(' ratio min ' in x for x in text.split('\n')) ==
             sum(1 for x in secs if x[3]),
             'tables printed outside their sections')
        totals = secs[-2:]
        need([(x[0], x[2]) for x in totals] == [('TOTAL', 'req'),
                                               ('TOTAL', 'res')],
             'the last sections are %r', [x[:3] for x in totals])
        for x in totals:
            mine = [r for r in results if r[1] == x[2]]
            need(x[1] == sum(r[2] for r in mine), 'TOTAL of %d %s messages, '
                 'expected %d', x[1], x[2], sum(r[2] for r in mine))
            total = {nm: sum((r[3][nm] for r in mine), []) for nm in names}
            check_rows('TOTAL ' + x[2], x[3], total, names,
                       full(base))
        if verbose in (1, 2):
            mine = secs[:-2]
            need([(x[0], x[2], x[1]) for x in mine] ==
                 [r[:3] for r in results], 'sections %r, expected %r',
                 [(x[0], x[2], x[1]) for x in mine], [r[:3] for r in results])
            for x, r in zip(mine, results):
                check_rows(r[0] + ' ' + r[1], x[3], r[3], names,
                           full(base))
        prefix = ['', '', 'pre-', 'sub/x'][tsv]
        want = {}
        if tsv:
            for kind in ('req', 'res'):
                lines = ['\t'.join(['num', 'name'] + names)]
                num = 0
                for nm, k, n, sizes in results:
                    for i in range(n):
                        if k == kind:
                            num += 1
                            lines.append('\t'.join(
                                [str(num), nm] + [str(sizes[c][i])
                                                  for c in names]))
                want[prefix + kind + '.tsv'] = '\n'.join(lines) + '\n'
        need(made == want, 'TSV files %r, expected %r', made, want)
        return len(streams)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
