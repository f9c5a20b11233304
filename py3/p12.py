"""Streamifiers partition the messages."""
import itertools
from base import Bad, need
from importlib import import_module

# host, key under `host`, key under `public_suffix`
HOSTS = [('www.example.com', 'www.example.com', 'example.com'),
         ('WWW.Example.COM', 'www.example.com', 'example.com'),
         ('img.example.com', 'img.example.com', 'example.com'),
         ('example.com:8080', 'example.com:8080', 'example.com'),
         ('example.org', 'example.org', 'example.org'),
         ('a.co.uk', 'a.co.uk', 'a.co.uk'),
         ('www.a.co.uk:80', 'www.a.co.uk:80', 'a.co.uk'),
         ('b.co.uk', 'b.co.uk', 'b.co.uk'),
         ('localhost', 'localhost', 'localhost')]
NAMES = ['all_one', 'host', 'public_suffix']
PROCS = ['http1', 'delta2 (a, b)']
MADE = {}


def cases(tier):
    for name in NAMES:
        for n in range(7 if tier == 'thorough' else 6):
            for c in itertools.product(range(len(HOSTS)), repeat=n):
                yield name, c
    # long captures: n sites, then one of them again
    big = 90 if tier == 'thorough' else 60
    for name in NAMES:
        for n in range(1, big + 1):
            for k in range(n):
                yield name, list(range(100, 100 + n)) + [100 + k]
        # long runs
        for a, b, c in itertools.product(RUNS, repeat=3):
            yield name, [0] * a + [4] * b + [2] * c + [7] + [0] * b


RUNS = [0, 1, 2, 3, 9, 17]


def site(n):
    if n < 100:
        return HOSTS[n]
    if n % 3:
        return ('www.site%d.com' % n,) * 2 + ('site%d.com' % n,)
    return ('site%d.org:81' % n,) * 2 + ('site%d.org' % n,)


def run_case(job, case, sink):
    if job not in MADE:
        MADE[job] = import_module('lib.streamifiers.' + job) \
            .Streamifier(list(PROCS))
    messages = []
    for n, h in enumerate(case):
        messages.append(({':host': site(h)[0], 'n': str(n)}, {'n': 'r%d' % n}))
    given = list(messages)
    was = repr(given)
    streams = MADE[job].streamify(given)
    need(repr(given) == was, 'the list of messages was changed')
    key = {'all_one': lambda h: 'all', 'host': lambda h: h[1],
           'public_suffix': lambda h: h[2]}[job]
    groups = {} if job != 'all_one' else {'all': []}
    for n, h in enumerate(case):
        groups.setdefault(key(site(h)), []).append(n)
    sink.state((job, tuple(case)))
    want = []
    for k in groups:
        for d in ('req', 'res'):
            want.append((k, d, groups[k]))
    got = []
    for s in streams:
        side = {'req': 0, 'res': 1}.get(s.msg_type)
        need(side is not None, 'stream of type %r', s.msg_type)
        idx = []
        for hdrs, host in s.messages:
            need(any(hdrs == m[side] for m in messages),
                 'a %s stream holds %r', s.msg_type, hdrs)
            n = int(hdrs['n'].lstrip('r'))
            need(host.strip().lower() == site(case[n])[0].lower(),
                 'message %d for %r is said to be for %r', n,
                 site(case[n])[0], host)
            idx.append(n)
        got.append((s.name, s.msg_type, idx))
        need(list(s.procs) == PROCS, 'the stream lists codecs %r', s.procs)
    need(got == want, 'streams %r, expected %r', got, want)
    return len(case) + 1
