"""raw BOHE: every record of a message can be read back."""
import calendar
import datetime
import hashlib
import itertools
from engine import Options
from sink import Bad, Sink, drive, exc, replay_with
import compressor.bohe as bohe
from compressor.bohe import header_freq_tables, huffman

NAMES = (
    ':path accept-language accept-encoding accept user-agent :scheme '
    'connection :method :host :version referer cookie x-requested-with '
    'content-length pragma cache-control content-type :status keep-alive '
    'server location date :status-text transfer-encoding set-cookie expires '
    'vary p3p content-encoding x-amz-id-2 x-amz-id-1 x-amzn-requestid x-pad '
    'nncoection accept-ranges last-modified etag x-frame-options x-sap-pg '
    'if-modified-since via x-cache age x-amz-cf-id cneonction x-cache-lookup '
    'x-xss-protection if-none-match x-amz-request-id '
    'x-amz-meta-jets3t-original-file-date-iso8601 x-amz-meta-md5-hash '
    'content-location x-ocsp-reponder-id content-transfer-encoding '
    'x-content-type-options x-host dl_s').split()
DATES = ('last-modified', 'date', 'expires', 'if-modified-since',
         'if-unmodified-since')
NUMBERS = (':status', 'content-length', 'age')
ACCEPTS = ('accept', 'accept-language', 'accept-encoding', 'accept-charset')
TAGS = ('etag', 'if-match', 'if-none-match')
METHODS = ['get', 'post', 'put', 'patch', 'delete', 'options', 'connect']
BINARY = DATES + NUMBERS + ACCEPTS + TAGS + (
    'set-cookie', 'cookie', 'cache-control', ':method', 'p3p')
P3P = ('NOI ALL CAO IDC OTI NON DSP COR MON LAW NID CUR ADM DEV TAI PSA PSD '
       'IVA IVD CON HIS TEL OTP OUR DEL SAM UNR PUB OTR NOR STP LEG BUS IND '
       'PHY ONL UNI PUR FIN COM NAV INT DEM CNT STA POL HEA PRE LOC GOV OTC '
       'TST').split()

H = 'www.example.com'


class Bits(object):
    def __init__(self, octets):
        self.s = ''.join(bin(256 + ord(c))[3:] for c in octets)
        self.at = 0

    def number(self, n):
        assert self.at + n <= len(self.s), 'the message ends in a record'
        v = int(self.s[self.at:self.at + n], 2)
        self.at += n
        return v

    def octets(self, n):
        return ''.join(chr(self.number(8)) for _ in range(n))

    def left(self):
        return len(self.s) - self.at

    def over(self):
        return self.left() < 8


WORDS = {}


def words(is_req):
    if is_req not in WORDS:
        t = header_freq_tables
        h = huffman.Huffman(t.request_freq_table if is_req else
                            t.response_freq_table)
        table = {}
        for s in range(257):
            data, n = h.Encode([], True) if s == 256 else \
                h.Encode([s], False)
            table[''.join(bin(256 + b)[3:] for b in data)[:n]] = s
        WORDS[is_req] = table
    return WORDS[is_req]


def text(bits, is_req):
    table = words(is_req)
    top = max(len(w) for w in table)
    out = []
    while True:
        for n in range(1, top + 1):
            s = table.get(bits.s[bits.at:bits.at + n])
            if s is not None:
                break
        else:
            raise Bad('no code word at bit %d' % bits.at)
        bits.at += n
        if s == 256:
            return ''.join(out)
        out.append(chr(s))


class Octets(object):
    def __init__(self, s):
        self.s, self.at = s, 0

    def take(self, n):
        if self.at + n > len(self.s):
            raise Bad('the value ends in an item: %r' % self.s)
        self.at += n
        return self.s[self.at - n:self.at]

    def uvarint(self):
        v, shift = 0, 0
        while True:
            c = ord(self.take(1))
            v |= (c & 127) << shift
            shift += 7
            if c < 128:
                if c == 0 and shift > 7:
                    raise Bad('a number longer than it needs: %r' % self.s)
                return v

    def string(self):
        return self.take(self.uvarint())

    def over(self):
        return self.at == len(self.s)


def date(n):
    d = datetime.datetime(1990, 1, 1) + datetime.timedelta(seconds=n)
    return '%s, %02d %s %04d %02d:%02d:%02d GMT' % (
        calendar.day_abbr[d.weekday()], d.day, calendar.month_abbr[d.month],
        d.year, d.hour, d.minute, d.second)


def same(what, got, want):
    if got != want:
        raise Bad('%s reads as %r, expected %r' % (what, got, want))


def plain(v):
    """What stands for a cookie's value: its octets if it is in hexadecimal
    or base64."""
    if v is None:
        return ''
    if len(v) % 2 == 0 and not v.strip('0123456789abcdefABCDEF'):
        return v.decode('hex')
    body = v.rstrip('=')
    if len(v) % 4 == 0 and len(v) - len(body) in (0, 1, 2) and \
            not body.replace('+', 'a').replace('/', 'a').strip(
            'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'):
        return v.decode('base64')
    return v


def value(name, raw, is_req, note):
    """Checks the octets of a value against what it says (`note`)."""
    o = Octets(raw)
    if name in DATES:
        n = o.uvarint()
        if isinstance(note, int):
            same(name, n, note)
        else:
            same(name, date(n), note)
    elif name in NUMBERS:
        for v in note:
            same(name, o.uvarint(), v)
    elif name == ':method':
        if len(raw) == 1 and 1 <= ord(raw) <= 7:
            same(name, METHODS[ord(o.take(1)) - 1], note)
        else:
            same(name, o.take(len(raw)), note)
            if note in METHODS:
                raise Bad('the method %s is spelled out' % note)
    elif name in ACCEPTS:
        same(name, o.take(len(raw)).split('\0') if raw else [], note)
    elif name in TAGS:
        same('number of tags', o.uvarint(), len(note))
        for t in note:
            same('length of a tag', ord(o.take(1)), 16)
            same('digest of %r' % t, o.take(16), hashlib.md5(t).digest())
    elif name == 'cookie':
        got = {}
        while not o.over():
            o.take(1)
            k = o.string()
            got[k] = o.string()
        same(name, got, dict((k, plain(v)) for k, v in note))
    elif name == 'set-cookie':
        for i, (k, v, path, domain, when) in enumerate(note):
            if i:
                same('separator', o.take(1), '\0')
            o.take(1)
            same('cookie name', o.string(), k)
            same('cookie value', o.string(), plain(v))
            for what, want in ('path', path), ('domain', domain):
                n = o.take(2)
                same(what, o.take(ord(n[0]) * 256 + ord(n[1])), want)
            n = o.uvarint()
            if isinstance(when, int):
                same('age', n, when)
            else:
                same('date', date(n), when)
    elif name == 'cache-control':
        o.take(1)
        for what in ('max-age', 'max-stale', 'min-fresh') if is_req else \
                ('max-age', 's-maxage'):
            same(what, o.uvarint(), note.get(what, 0))
        if not is_req:
            for what in ('no-cache', 'private'):
                n = o.uvarint()
                same('lists of ' + what, n, 1 if what in note else 0)
                if n:
                    same(what, o.string(), note[what])
        same('extensions', o.uvarint(), 0)
    elif name == 'p3p':
        ref, tokens = note
        same('policy', o.string(), ref)
        for t in tokens:
            same('token', ord(o.take(1)), (P3P.index(t[:3]) + 1) * 4 +
                 (0 if len(t) == 3 else 'aio'.index(t[3])))
    if not o.over():
        raise Bad('%d octets too many in %r' % (
            len(raw) - o.at, raw))


def read(wire, is_req, expect, notes):
    bits = Bits(wire)
    seen = set()
    while not bits.over() or len(seen) < len(expect) and bits.left():
        n = bits.number(8)
        if n & 128:
            name = bits.octets(n & 127)
            if name in NAMES:
                raise Bad('%s is spelled out' % name)
        else:
            if not 1 <= n <= len(NAMES):
                raise Bad('no name has number %d' % n)
            name = NAMES[n - 1]
        if name in seen:
            raise Bad('%s is given twice' % name)
        if name not in expect:
            raise Bad('unexpected field %r' % name)
        seen.add(name)
        binary = not n & 128 and name in BINARY
        if binary:
            same('binary flag of %s' % name, bits.number(1), 1)
        elif n & 128:
            same('binary flag of %s' % name, bits.number(1), 0)
        same('flag of several values of %s' % name, bits.number(1),
             int('\0' in expect[name]))
        size = bits.number(22)
        if binary:
            value(name, bits.octets(size), is_req, notes[name])
        else:
            at = bits.at
            same(name, text(bits, is_req), expect[name])
            same('length of ' + name, size, (bits.at - at + 7) // 8)
    same('fields', sorted(seen), sorted(expect))
    if '1' in bits.s[bits.at:]:
        raise Bad('padding %r' % bits.s[bits.at:])


DAYS = [datetime.datetime(1990, 1, 1), datetime.datetime(1990, 1, 1, 0, 0, 1),
        datetime.datetime(1990, 1, 1, 0, 2, 7),
        datetime.datetime(1990, 1, 1, 0, 2, 8),
        datetime.datetime(2000, 2, 29, 23, 59, 59),
        datetime.datetime(2012, 11, 5, 10, 20, 30),
        datetime.datetime(2038, 1, 19, 3, 14, 8),
        datetime.datetime(2200, 12, 31, 12)]


def stamp(d):
    return date((d - datetime.datetime(1990, 1, 1)).days * 86400 +
                (d - datetime.datetime(1990, 1, 1)).seconds)


def values(name, is_req):
    """[(value, what it says)] of a field with values of its own."""
    if name in DATES:
        return [(stamp(d), stamp(d)) for d in DAYS] + [
            ('0', 0), ('-1', 0), ('127', 127), ('128', 128),
            ('86400', 86400), ('', 0), ('never', 0)]
    if name in NUMBERS:
        ns = [0, 1, 127, 128, 200, 255, 404, 16383, 16384, 2097151, 2097152,
              268435455, 268435456, 2 ** 31, 2 ** 32, 2 ** 40]
        return [('%d' % n, [n]) for n in ns] + [
            ('%d\0%d' % (a, b), [a, b]) for a in ns[:8] for b in ns[:8]] + [
            ('', [0])]
    if name == ':method':
        return [(m, m) for m in METHODS + ['GET', 'head', 'trace', 'x',
                                           'propfind']]
    if name in ACCEPTS:
        out = []
        vs = ['en', 'fr', 'de-ch']
        if name == 'accept':
            vs = ['text/html', 'image/png', 'text/plain']
        qs = ['', ';q=0.5', ';q=0.8', ';q=0', ';q=0.001', ';q=1']
        for n in (1, 2, 3):
            for q in itertools.product(qs, repeat=n):
                got = sorted(range(n), key=lambda i: -float(
                    q[i][3:] or 1))
                for sep in (',', ', '):
                    out.append((sep.join(v + x for v, x in zip(vs, q)),
                                [vs[i] for i in got
                                 if float(q[i][3:] or 1) > 0]))
        return out
    if name in TAGS:
        ts = ['"a"', 'W/"a"', '', '"', '"\xff"', '*', '"' + 'x' * 200 + '"']
        return [(t, [t]) for t in ts] + [
            ('\0'.join(x), list(x)) for n in (2, 3)
            for x in itertools.product(ts, repeat=n)]
    if name == 'cookie':
        vs = ['', '1', 'x1', 'abcd', 'c0ffee', 'C0FFEE', 'zz', 'TWFu', 'TWE=',
              'TQ==', 'TQ=', 'a.b-c', 'ffff=', '=', 'x' * 127, 'y' * 128,
              'ab' * 200]
        out = []
        for k in ('a', 'SID', 'n' * 127, 'n' * 128, 'n' * 300):
            for v in vs:
                out.append(('%s=%s' % (k, v), [(k, v)]))
        return out
    if name == 'set-cookie':
        one = []
        for v in ('1x', 'c0ffee', 'TQ==', 'x' * 130):
            for path in ('', '/', '/' + 'p' * 300):
                for domain in ('', '.example.com'):
                    for when, says in [('', 0),
                                       ('Max-Age=3600', 3600)] + [
                            ('expires=' + stamp(d), stamp(d))
                            for d in DAYS[2:6]]:
                        s = 'k=' + v
                        if path:
                            s += '; path=' + path
                        if domain:
                            s += '; domain=' + domain
                        if when:
                            s += '; ' + when
                        one.append((s, ('k', v, path, domain, says)))
        few = one[::7]
        return [(s, [x]) for s, x in one] + [
            (a + '\0' + b, [x, y]) for (a, x), (b, y) in
            itertools.product(few, repeat=2)]
    if name == 'cache-control':
        out = []
        keys = ['max-age', 'max-stale', 'min-fresh'] if is_req else \
            ['max-age', 's-maxage']
        ns = [None, 0, 1, 127, 128, 31536000]
        for nums in itertools.product(ns, repeat=len(keys)):
            for rest in ('', 'no-store', 'no-cache', 'private') + (
                    () if is_req else ('private=set-cookie', 'no-cache=x',
                                       'no-cache=x,private=y')):
                note = dict((k, n) for k, n in zip(keys, nums)
                            if n is not None)
                parts = ['%s=%d' % (k, note[k]) for k in keys if k in note]
                for r in rest.split(','):
                    if r:
                        parts.append(r)
                    if '=' in r:
                        note[r.split('=')[0]] = r.split('=')[1]
                for sep in (',', ', ', '\0'):
                    out.append((sep.join(parts), note))
        return out
    if name == 'p3p':
        out = []
        for ref in ('', 'http://x/p3p.xml'):
            for t in [[], ['NOI'], ['CURa'], ['TST', 'ADMo', 'OURi', 'ALL']] \
                    + [[p] for p in P3P] + [['FAKE'], ['This', 'is', 'not']]:
                parts = []
                if ref:
                    parts.append('policyref="%s"' % ref)
                if t:
                    parts.append('CP="%s"' % ' '.join(t))
                says = t if all(x[:3] in P3P for x in t) else []
                out.append((', '.join(parts), (ref, says)))
        return out
    raise Bad(name)


OCTETS = [chr(c) for c in range(256)]


class Run(object):
    def __init__(self):
        self.cache = {}

    def table(self, is_req):
        if is_req not in self.cache:
            self.cache[is_req] = dict(
                (k, values(k, is_req)) for k in NAMES if k in BINARY)
        return self.cache[is_req]

    def message(self, is_req, spec):
        """spec: [[name, index of its value, or the value]]"""
        expect, notes = {}, {}
        for name, v in spec:
            if isinstance(v, int):
                v, notes[name] = self.table(is_req)[name][v]
            expect[name] = v.encode('latin-1') if isinstance(
                v, unicode) else v
        return dict((str(k), v) for k, v in expect.items()), notes

    def case(self, job, specs):
        is_req = job.startswith('req')
        p = bohe.Processor(Options, is_req, [])
        for spec in specs:
            expect, notes = self.message(is_req, spec)
            wire = p.compress(dict(expect), H)
            read(wire, is_req, expect, notes)
        return len(specs)


def cases(tier, run):
    deep = tier == 'thorough'
    for is_req in (True, False):
        side = 'req' if is_req else 'res'
        table = run.table(is_req)
        for name in table:
            for i in range(len(table[name])):
                yield side + ' values', [[[name, i]]]
        texts = [n for n in NAMES if n not in BINARY]
        for name in texts + ['x', 'x-y', 'if-match', 'if-unmodified-since']:
            for v in ['', 'a', '\0', 'a\0b', 'a\0', '\0b', 'a\0b\0c',
                      '\\u00', 'u00', '\xff\x00\xfe', 'x' * 300]:
                yield side + ' texts', [[[name, v]]]
        few = [[n, 0] for n in table] + \
            [[n, 1] for n in table] + \
            [[n, v] for n in texts[::4] + ['x', 'x-y', 'dl_s2']
             for v in ('ab', 'c\0d')]
        for n in (2, 3) if deep else (2,):
            for m in itertools.product(few, repeat=n):
                if len(set(k for k, v in m)) == n:
                    yield side + ' sets of fields', [list(m)]
        for a, b in itertools.product(few, repeat=2):
            yield side + ' histories', [[a], [b], [a]]
        yield side + ' all fields', [
            [[n, 0 if n in table else 'v'] for n in NAMES] + [['x', 'y']]]
        for n in range(1, 128):
            yield side + ' lengths of names', [
                [['n' * n, 'v'], ['server', 's']]]
        for n in range(0, 1500 if deep else 700):
            yield side + ' lengths of values', [
                [['server', 'v' * n], ['x-y', '\xfe' * n], ['age', 1]]]
        for n in (32, 33, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 8192):
            for c in 'e0\x00':
                yield side + ' lengths of values', [
                    [['server', c * n], ['x-y', c * n]]]
        for c in OCTETS:
            for d in OCTETS if deep else ['a', c]:
                yield side + ' octets', [
                    [['server', c + d], ['x-y', d + c + d]]]
            if c.islower() or c.isdigit() or c in "-_.!#$%&'*+^`|~":
                yield side + ' octets', [[['x' + c, c]]]


def run(tier, shard, nshards, out):
    sink = Sink(out, shard, nshards)
    r = Run()
    seen = {}

    def one(job, case):
        n = r.case(job, case)
        sink.extra[job] = sink.extra.get(job, 0) + 1
        sink.states.add(hash(repr(case)))
        return n
    drive(sink, printable(cases(tier, r)), one)


def printable(cs):
    """The cases as JSON keeps them."""
    for job, case in cs:
        yield job, [[[k, v if isinstance(v, int) else v.decode('latin-1')]
                     for k, v in m] for m in case]


def replay(data):
    return replay_with(Run().case, data)
