"""simple codec: lossless over every history, for every set of parameters."""
import os
import sys
try:
    import bitarray
except ImportError:
    # not installed here: a stand-in for the few calls that are used
    sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                 'stubs'))
import calendar
import datetime
import zlib
import alphabets as A
from engine import Job, Options
import compressor.simple as simple

TEXT = [[], ['seven'], ['huffman']]
MORE = [[], ['date'], ['max_entries=0'], ['max_entries=1'], ['max_entries=3'],
        ['date', 'max_entries=2']]


class Codec(object):
    """The version and the reason phrase, which the codec leaves out, are
    added before and dropped afterwards."""
    def __init__(self, is_request, params):
        self.real = simple.Processor(Options, is_request, params)

    def compress(self, headers, host):
        m = dict(headers)
        m[':version'] = 'HTTP/1.1'
        if ':status' in m:
            m[':status-text'] = 'Not Modified'
        return self.real.compress(m, host)

    def decompress(self, wire):
        m = dict(self.real.decompress(wire))
        for k in (':version', ':status-text'):
            m.pop(k, None)
        return m


SHORT = dict(p.split('=') for p in (
    'xct=x-content-type-options ce=content-encoding '
    'ac=access-control-allow-origin ct=content-type al=accept-language '
    'ae=accept-encoding ar=accept-ranges ua=user-agent s=server r=referer '
    'a=accept c=cookie lm=last-modified cc=cache-control p=pragma v=vary '
    'd=date x=expires cl=content-length e=etag la=content-language vi=via '
    'sc=set-cookie p3=p3p ims=if-modified-since inm=if-none-match '
    'h=:host').split())
DATED = ('last-modified', 'if-modified-since', 'date', 'expires')


class Ref(object):
    """Reads the messages by the description of the format."""
    def __init__(self, is_request, params):
        self.is_request = is_request
        self.params = params
        self.last = {}
        self.inflate = zlib.decompressobj()
        self.limit = min([int(p.split('=')[1]) for p in params if '=' in p] +
                         [1 << 30])

    def text(self, wire):
        if 'seven' in self.params:
            bits = ''.join(bin(256 + ord(c))[3:] for c in wire)
            n = len(bits) // 7
            text = ''.join(chr(int(bits[7 * i:7 * i + 7], 2))
                           for i in range(n))
            # bits that only fill up the last octet
            if len(bits) % 7 == 0 and text[-1:] == chr(0):
                text = text[:-1]
            return text
        if 'huffman' in self.params:
            return self.inflate.decompress(wire)
        return wire

    def name(self, short):
        return short[1:] if short[0] == '!' else SHORT[short]

    def step(self, wire):
        lines = self.text(wire).split('\n')
        assert lines[-2:] == ['', ''] and '' not in lines[:-2], \
            'the message does not end with an empty line'
        top = lines[0].split(' ')
        out, refs = {}, []
        if self.is_request:
            assert len(top) == 3 and top[2] == 'H/2', 'first line %r' % top
            out[':method'], out[':path'] = top[:2]
        else:
            assert len(top) == 3 and top[0::2] == ['H/2', '?'], \
                'first line %r' % top
            out[':status'] = top[1]
        lists = {}
        for line in lines[1:-2]:
            cut = line.index(':', 1)
            short, value = line[:cut], line[cut + 1:]
            if short == 'ref':
                assert not refs, 'two lists of references'
                refs = value.split(',')
            elif short[0] == ':':
                lists.setdefault(short, []).append(value)
            else:
                lists.setdefault(self.name(short), []).append(value)
        for name, values in lists.items():
            value = '\0'.join(values)
            if name in DATED and 'date' in self.params:
                value = self.date(value)
            out[name] = value
        assert len(refs) <= self.limit, \
            '%d references, but max_entries is %d' % (len(refs), self.limit)
        if len(refs) < self.limit:
            for name, value in out.items():
                if name[0] == ':' and name != ':host':
                    continue
                assert self.last.get(name) != value, \
                    '%s is as in the last message, but spelled out' % name
        for short in refs:
            name = self.name(short)
            assert name not in out, '%s is given twice' % name
            out[name] = self.last[name]
        self.last = dict(out)
        return out

    def date(self, value):
        if value[:1] == '!':
            return value[1:]
        d = datetime.datetime(1970, 1, 1) + datetime.timedelta(
            seconds=int(value, 16))
        return '%s, %02d %s %04d %02d:%02d:%02d GMT' % (
            calendar.day_abbr[d.weekday()], d.day,
            calendar.month_abbr[d.month], d.year, d.hour, d.minute, d.second)

    def state(self):
        return hash(tuple(sorted(self.last.items())))


def whole(al, is_req):
    """Messages with all that a first line needs."""
    out = []
    for m, host in al:
        d = dict(m)
        if is_req:
            d.setdefault(':method', 'get')
            if d.setdefault(':path', '/') == '':
                d[':path'] = '/'
            d.setdefault(':scheme', 'http')
            d.setdefault(':host', host)
        else:
            d = dict((k, v) for k, v in d.items() if k[0] != ':')
            d[':status'] = m.get(':status', '200')
        out.append((d, host))
    return out


DATES = ['Mon, 05 Nov 2012 10:20:30 GMT', 'Tue, 06 Nov 2012 00:00:00 GMT',
         'Thu, 01 Jan 1970 00:00:00 GMT', 'Sat, 01 Jan 1960 12:00:00 GMT',
         'Tue, 19 Jan 2038 03:14:08 GMT', '0', '-1', 'abc', '5097968e', '',
         'Monday, 05-Nov-12 10:20:30 GMT', 'Mon Nov  5 10:20:30 2012',
         'Sun, 05 Nov 2012 10:20:30 GMT', 'Mon, 5 Nov 2012 10:20:30 GMT',
         'Mon, 35 Nov 2012 10:20:30 GMT', 'Mon, 05 Foo 2012 10:20:30 GMT',
         'Mon, 05 Nov 2012 10:20:30', '0x10', '1_0', ' 12', '!12', '!',
         'Mon, 05 Nov 2012 25:61:61 GMT', 'Mon, 05 Nov 12 10:20:30 GMT',
         'ffffffff', '7fffffffffffffff', '12L', '1\x00' '2',
         'Mon, 05 Nov 2012 10:20:30 GMT\x00' '0', '+5', '-0', '00']


def dates(is_req):
    out = []
    for v in DATES:
        for k in ('if-modified-since',) if is_req else (
                'date', 'last-modified', 'expires'):
            m = {k: v, 'x-y': '1', 'x-date': v}
            n = {k: DATES[0], 'x-y': '1'}
            out.append(whole([(m, A.H), (m, A.H), (n, A.H), (m, A.H)],
                             is_req))
    return out


def names(is_req):
    """Fields whose names are the short names of others, or special words."""
    short = ['h', 'ref', 's', 'c', 'xct', 'd', 'cl', 'host', '!x', 'x', 'a']
    out = [({n: '1', 'server': 's', 'cookie': 'a=1'}, A.H) for n in short]
    out.append((dict((n, n) for n in short), A.H))
    out.append((dict((n, '2') for n in short), A.H2))
    return whole(out, is_req)


def jobs(tier):
    t = tier == 'thorough'
    out = []
    for is_req in (True, False):
        al = whole(A.requests() if is_req else A.responses(), is_req)
        if is_req:
            # the codec's first line cannot hold a repeated path
            reps = [(dict(m, **{':path': '/r'}), h) for m, h in A.repeats()]
        else:
            reps = A.repeats()
        reps = whole(reps, is_req)
        tiny = whole(A.tiny(), is_req)
        for text in TEXT:
            for more in MORE:
                p = text + more
                tag = '%s/%s' % ('req' if is_req else 'res', ','.join(p))
                mk = (lambda p=p, is_req=is_req: Codec(is_req, p))

                def add(what, al, depth, **kw):
                    out.append(Job('%s %s' % (what, tag), mk, al, depth,
                                   info={'keep': (':method', ':path',
                                                  ':status')},
                                   monitor=lambda p=p, r=is_req: Ref(r, p),
                                   **kw))
                add('tree', al, 4 if t else 3)
                add('tiny tree', tiny, 5 if t else 3, mode='batch')
                add('windows', al + tiny + reps, 3 if t else 2,
                    kind='debruijn', mode='split')
                add('names', names(is_req), 3 if t else 2)
                if 'date' in p:
                    add('dates', [], 0, kind='list', histories=dates(is_req))
                if not more:
                    add('lengths', [], 0, kind='list', histories=[
                        whole(h, is_req) for h in A.lengths(700)])
                    add('octets', [], 0, kind='list', histories=[
                        whole(h, is_req) for h in octets(text)])
    return out


def octets(text):
    out = []
    for c in range(33, 127 if 'seven' in text else 256):
        if c in (127, 133, 160):
            continue
        ch = chr(c)
        m = {'x-y': 'a' + ch, 'q': ch + 'b\x00' + 'x' + ch + 'x'}
        if ch not in '; ':
            m['cookie'] = 'a=' + ch
        out.append([(m, A.H), ({'x-y': ch}, A.H), (m, A.H)])
    return out
