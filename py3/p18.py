"""The deflate codecs: what they emit inflates, message by message."""
import zlib
from base import Bad, need, norm
import hist
from compressor import spdy_dictionary

DICT = spdy_dictionary.spdy_dict.encode('latin-1')
CODECS = [('http1_gzip', []), ('http1_huffman', []), ('spdy3', []),
          ('spdy3', ['dict']), ('spdy3', ['x', 'dict'])]


def cases(tier):
    for n in range(len(CODECS)):
        for case in hist.histories(6 if tier == 'thorough' else 5, 2):
            yield 'deflate', [n, case]
        big = hist.LENS
        for a in hist.LENS:
            yield 'deflate', [n, [['long', a, 1], 0, n % 2]]
        for a in big:
            for b in big[-6:]:
                yield 'deflate', [n, [['long', a, b], 0, n % 2]]
        for a in hist.LENS[:18]:
            yield 'deflate', [n, [['many', a % 3000, 0], 0, n % 2]]


def pairs(data):
    """SPDY/3 name/value pairs (without frame header and count)."""
    out = {}
    i = 0
    while i < len(data):
        parts = []
        for _ in range(2):
            need(i + 4 <= len(data), 'truncated after %r', out)
            n = int.from_bytes(data[i:i + 4], 'big')
            need(i + 4 + n <= len(data), 'a length of %d with %d octets left',
                 n, len(data) - i - 4)
            parts.append(data[i + 4:i + 4 + n].decode('ascii'))
            i += 4 + n
        need(parts[0] not in out, 'header %r twice', parts[0])
        out[parts[0]] = parts[1]
    return out


def run_case(job, case, sink):
    n, h = case
    name, params = CODECS[n]
    is_req = h[2]
    codec = hist.make(name, params, bool(is_req))
    primed = name != 'spdy3' or 'dict' in params
    if primed:
        inflate = zlib.decompressobj(-15, zdict=DICT)
    else:
        inflate = zlib.decompressobj()
    for k, m in enumerate(hist.messages(h)):
        was = dict(m)
        wire = codec.compress(m, 'host')
        need(m == was, 'compress changed its input')
        need(isinstance(wire, bytes), 'the output is %s', type(wire).__name__)
        plain = b''
        if name == 'spdy3':
            plain, wire = wire[:12], wire[12:]
        if name == 'http1_huffman':
            # Huffman coding only: no reference to anything sent before
            try:
                need(zlib.decompressobj(-15).decompress(wire).endswith(
                    b'\r\n\r\n'), 'message %d is incomplete on its own', k)
            except zlib.error as e:
                raise Bad('message %d refers to earlier text: %s' % (k, e))
        elif primed and k == 0 and len(m) > 2:
            try:
                zlib.decompressobj(-15).decompress(wire)
                raise Bad('the dictionary is not used')
            except zlib.error:
                pass
        try:
            data = plain + inflate.decompress(wire)
        except zlib.error as e:
            raise Bad('message %d does not inflate: %s' % (k, e))
        need(not inflate.unused_data and not inflate.unconsumed_tail,
             'octets after message %d', k)
        if name == 'spdy3':
            need(pairs(data) == m, 'message %r became %r', m, data)
        else:
            need(hist.parse_text(data.decode('utf-8'), is_req) == norm(m),
                 'message %r became %r', m, data)
        sink.state((n, is_req, hash(wire)))
    return k + 1
