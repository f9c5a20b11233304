"""hyper_hpack is lossless over histories, also for another decoder."""
import hpack
from base import need, norm
import hist


def cases(tier):
    for case in hist.histories(6 if tier == 'thorough' else 5, 2):
        yield 'plain', case
    # the library's decoder refuses lists of more than 65536 octets
    small = [n for n in hist.LENS if n < 60000]
    for t in (0, 1):
        for a in small:
            yield 'plain', [['long', a, 1], 0, t]
            yield 'plain', [['many', a % 600, 0], 0, t]
        for a in small[::2]:
            for b in small[:-6]:
                yield 'plain', [['long', a, b], 0, t]


def run_case(job, case, sink):
    is_req = case[2]
    codec = hist.make('hyper_hpack', [], bool(is_req))
    other = hpack.Decoder()
    for k, m in enumerate(hist.messages(case)):
        was = dict(m)
        wire = codec.compress(m, 'host')
        need(m == was, 'compress changed its input')
        sink.state((is_req, hash(wire)))
        got = {}
        for n, v in other.decode(wire):
            need(n not in got, 'header %r twice', n)
            got[n] = v
        need(got == m, 'message %d: %r was decoded as %r', k, m, got)
        back = codec.decompress(wire)
        need(isinstance(back, dict), 'decompress returns %r', back)
        need(norm(back) == norm(m), 'message %d: %r came back as %r', k, m,
             back)
    return k + 1
