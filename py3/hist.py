"""Histories of messages for the codecs the tool itself can load."""
import itertools
from importlib import import_module
from base import need, norm

LONG = 'v%d' % 7 + 'abcdefgh' * 40
REQ = [
    {':method': 'get', ':path': '/', ':scheme': 'http', ':host': 'a.com'},
    {':method': 'get', ':path': '/x?y=1:2', ':scheme': 'https',
     ':host': 'a.com:80', 'accept': '*/*', 'cookie': 'a=1; b=2'},
    {':method': 'post', ':path': '/', ':host': 'b.org', 'x': '',
     'referer': 'http://a.com/?q=1'},
    {':method': 'get', ':path': '/' + 'p' * 300, ':scheme': 'http',
     'x-long': LONG, 'user-agent': 'U (a; b) c/1.0'},
    {':method': 'get', ':path': '/', 'm': 'one\0two', 'n': 'a\0b\0c'},
    {':method': 'options', ':path': '*', ':host': 'a.com', 'a': ':',
     'b': 'x: y', 'c': ':x'},
]
RES = [
    {':status': '200'},
    {':status': '200', 'content-type': 'text/html; charset=x',
     'set-cookie': 'a=1; path=/\0b=2'},
    {':status': '404', 'date': 'Tue, 01 Jan 2013 10:00:00 GMT',
     'content-length': '0', 'empty': ''},
    {':status': '302', 'location': 'http://a.com/x?y=1', 'x-long': LONG},
    {':status': '200', 'cookie': 'a; b', 'via': '1.1 a\0' + '1.1 b'},
    {':status': '304', 'host': 'h', 'x': 'a  b', 'etag': '"' + LONG + '"'},
]


class Opt(object):
    verbose = 0
    debug = False


def make(codec, params, is_request):
    p = import_module('compressor.' + codec).Processor(
        Opt(), is_request, list(params))
    want = codec + (' (%s)' % ', '.join(params) if params else '')
    need(p.name == want, 'the codec is named %r, not %r', p.name, want)
    return p


def message(m, order):
    """The message as a dictionary with one of several field orders."""
    items = list(m.items())
    if order == 1:
        items = items[::-1]
    elif order == 2:
        items = items[1:] + items[:1]
    return dict(items)


def histories(depth, orders=3):
    for n in range(1, depth + 1):
        for c in itertools.product(range(len(REQ)), repeat=n):
            for o in range(orders):
                for is_req in (0, 1):
                    yield [c, o, is_req]


def filler(n):
    """A text of n letters that compresses badly."""
    out = []
    x = 12345
    for _ in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append(LETTERS[(x >> 16) % len(LETTERS)])
    return ''.join(out)


# lengths around every boundary a length field or a window could have
LENS = [0, 1, 2, 63, 64, 127, 128, 255, 256, 257, 511, 512, 4095, 4096, 8191,
        8192, 16383, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000,
        131071, 131072]
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./='


def messages(case):
    c, order, is_req = case
    if c[0] in ('long', 'many'):
        first = dict((REQ if is_req else RES)[1])
        if c[0] == 'long':
            first['x-long'] = filler(c[1])
            first['y'] = filler(c[2])
        else:
            for n in range(c[1]):
                first['f%d' % n] = filler(n % 7)
        return [first, message((REQ if is_req else RES)[0], 0), dict(first)]
    return [message((REQ if is_req else RES)[i], order) for i in c]


def parse_text(text, is_req):
    """An independent reading of an HTTP/1 header block."""
    need(text.endswith('\r\n\r\n'), 'the block ends with %r', text[-6:])
    lines = text[:-4].split('\r\n')
    top = lines.pop(0).split(' ')
    out = set()
    bad = [':method', ':path', ':version', ':status', ':status-text']
    if is_req:
        bad += [':host']
        need(len(top) == 3, 'request line %r', top)
        out.add((':method', top[0]))
        out.add((':path', top[1]))
    else:
        need(len(top) >= 3, 'status line %r', top)
        out.add((':status', top[1]))
    for line in lines:
        need(line, 'a blank line inside the block')
        at = line.index(':', 1)
        name, value = line[:at].lower(), line[at + 1:].strip(' ')
        need(name not in bad, 'a line for %r', name)
        if name == 'host' and is_req:
            name = ':host'
        for v in value.split(';') if name == 'cookie' else [value]:
            out.add((name, v.strip(' ')))
    return out
