"""Message alphabets. A message is (header dictionary, host)."""

H = 'www.example.com'
H2 = 'img.example.org'


def requests():
    base = {':method': 'get', ':scheme': 'http', ':host': H, ':path': '/'}

    def m(host=H, **kw):
        d = dict(base)
        d[':host'] = host
        for k, v in kw.items():
            d[k.replace('P_', ':').replace('_', '-')] = v
        return d, host
    return [
        m(),
        m(P_path='/a', cookie='a=1; b=2', accept='text/html'),
        m(P_path='/a', cookie='b=2; c=3', accept='*/*', x_y='1\x002'),
        m(host=H2, P_path='/b?q=1', P_scheme='https', user_agent='u',
          x_y='2\x003\x002'),
        ({'x-y': '1', 'referer': '', 'accept': ''}, H),
    ]


def responses():
    return [
        ({':status': '200', 'content-type': 'text/html', 'server': 's'}, H),
        ({':status': '304', 'etag': '"a"', 'date': 'Mon, 01 Jan'}, H),
        ({':status': '200', 'set-cookie': 'a=1; path=/\x00b=2; path=/',
          'content-type': 'text/html', 'date': 'Tue, 02 Jan'}, H2),
        ({':status': '404', 'set-cookie': 'b=2; path=/', 'vary': '',
          'server': 's', 'x-y': '1\x002'}, H2),
        ({'server': 't', 'x-y': '2', 'age': ''}, H),
    ]


def sized(al, size):
    """Adds messages whose values are large against a table of `size`."""
    n = 600 if size is None or size > 2000 else max(size // 3, 8)
    out = list(al)
    out.append(({'x-y': 'v' * n, 'accept': '*/*', 'via': '1'}, H))
    out.append(({'x-z': 'w' * n, 'x-y': '1\x002'}, H2))
    out.append(({'x-z': 'w' * (2 * n), 'x-y': 'v' * n}, H))
    out.append((dict(al[0][0], **{'x-z': 'u' * (2 * n), 'x-y': '1'}), H))
    if size is not None and size < 2000:
        out.append(({'x-q': 'z' * (size + 1), 'x-y': '1', 'via': '1'}, H))
    return out


def tiny():
    return [({'a': '1'}, H), ({'b': '1'}, H), ({'a': '2', 'b': '1'}, H),
            ({'a': '1\x002', 'c': '3'}, H),
            ({'a': '1', 'b': '1', 'c': '3', ':path': '/'}, H), ({}, H)]


def prefixes():
    """Values that share prefixes, and names/values that concatenate alike."""
    return [
        ({':path': '/a/b?x=1', 'x-y': '12'}, H),
        ({':path': '/a/b?x=2, y', 'x-y1': '2', 'x-y': '123'}, H),
        ({':path': '/a/bc', 'x-y': '12' + 'z' * 20, 'x-': 'y12'}, H),
    ]


def fill(n):
    """Messages (at most 200 fields each) that leave n distinct entries."""
    out = []
    for base in range(0, n, 100):
        out.append((dict(('f-%d' % i, 'v%d' % (i * 7))
                         for i in range(base, min(n, base + 100))), H))
    return out


def reach(n):
    """Messages that go back to entries all over a table made by fill(n):
    the same fields, fields with another value, and fields that use a name."""
    f = [('f-%d' % i, 'v%d' % (i * 7)) for i in range(n)]
    some = [0, 1, n // 3, n // 2, n - 98, n - 97, n - 34, n - 2, n - 1]
    return [
        (dict(f[::3][-90:]), H),
        (dict(f[i] for i in some), H),
        (dict((f[i][0], 'w%d' % i) for i in some), H),
        (dict([(f[n // 2][0], 'u'), f[n - 1], ('f-new', '1')]), H),
        (dict(f[-60:]), H),
    ]


def repeats():
    """The same value several times in one message, in any place."""
    return [
        ({'a': '1\x001', 'b': '1'}, H),
        ({'a': '1'}, H),
        ({'a': '2\x001\x002\x002', 'c': '1\x001\x001'}, H),
        ({'cookie': 'k=1; k=1; j=2', 'a': '2'}, H),
        ({'cookie': 'k=1', 'set-cookie': 'q\x00q', 'c': '\x00'}, H),
        ({'a': '\x001\x00', 'b': '\x00\x00', ':path': '/\x00/x'}, H),
    ]


def far():
    """The same names for a host in another header group."""
    return {'a': '1', 'b': '2', 'cookie': 'k=v; k2=v2'}, H2


def words():
    """Names and values that are words of the codecs' own."""
    w = ('toggl', 'trang', 'clone', 'kvsto', 'eref', 'opcode', 'index',
         'index_start', 'key', 'val', 'key_idx', 'stoggl', 'etoggl', 'skvsto',
         'None', '0', '-1')
    return [({w[i]: 'x', 'a': w[-i]}, H) for i in range(0, len(w), 3)] + [
        (dict((x, '') for x in w), H), (dict((x, x) for x in w), H2),
        (dict((x, 'key\0val\0') for x in w[:6]), H)]


def shared():
    """Two groups that share some of their fields."""
    return [({'a': '1', 'b': '2', 'accept': ''}, H),
            ({'a': '1', 'c': '3', 'accept': ''}, H2),
            ({'a': '1', 'b': '2'}, H2), ({'b': '2', 'c': '3'}, H)]


def many(n):
    return dict(('m-%d' % i, '%d' % (i % 3)) for i in range(n)), H


def ranges():
    """Messages that switch runs of neighbouring entries on and off."""
    full = dict(('r-%02d' % i, 'v%d' % i) for i in range(36))
    low = dict((k, v) for k, v in full.items() if k < 'r-20')
    gap = dict((k, v) for k, v in full.items() if k[-1] not in '37')
    stat = dict((k, '') for k in ('via', 'vary', 'user-agent', 'upgrade',
                                  'transfer-encoding', 'trailer', 'te',
                                  'status', 'from', 'date'))
    both = dict(stat)
    both.update(low)
    return [(full, H), (low, H), (gap, H), (stat, H), (both, H2),
            ({'r-00': 'v0', ':path': '/'}, H)]


def fill_big(n):
    out = []
    for base in range(0, n, 12):
        out.append((dict(('g-%d' % i, '%d' % i)
                         for i in range(base, min(n, base + 12))), H))
    return out


def lengths(top=40000):
    """Histories that take every length of name and value through the points
    where an integer changes its size."""
    out = []
    sizes = list(range(0, 300)) + [
        382, 383, 384, 385, 510, 511, 512, 513, 1023, 1024, 1025, 2047, 2048,
        4095, 4096, 16382, 16383, 16384, 16385, 16509, 16510, 16511, 16512,
        16513, 16637, 16638, 16639, 16640, 16641, 20000, 32767, 32768, 32769,
        40000]
    for n in [x for x in sizes if x <= top]:
        a = {'x-y': ('v%d' % n + 'v' * n)[:n], 'n' * max(1, n % 151): 'w' * (n // 2)}
        out.append([(a, H), ({'x-y': a['x-y'] + 'q', 'z': ''}, H), (a, H)])
    return out


def octets():
    """Every octet that a value may hold, in values, in cookies and (those that
    a name may hold) in names."""
    out = []
    for c in range(1, 256):
        ch = chr(c)
        name = ch if ch.isalnum() and ch.lower() == ch or ch in "-_!#$%&'*+.^`|~" \
            else 'x'
        # white space around a value is not part of it
        e = '.' if c <= 32 or c in (127, 133, 160) else ''
        m = {'x-y': e + ch * 2 + 'a' + ch + e, ':path': '/' + ch + e,
             name + 'n': e + ch + e, 'q': 'a' + ch + e + '\x00' + e + ch + 'b'}
        if ch not in '; ':
            m['cookie'] = 'a=' + ch + e + '; b' + ch + '=1'
        out.append([(m, H), ({'x-y': e + ch + e, 'q': e + ch + e}, H), (m, H)])
    return out


def big(n, count):
    """A message of `count` fields and about n octets, between small ones."""
    f = dict(('b-%03d' % i, '%d' % i + 'z' * (n // count)) for i in range(count))
    small = ({'a': '1', 'b-000': '0' + 'z' * (n // count)}, H)
    return [small, (f, H), small, (f, H)]
