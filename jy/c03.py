"""headerdiff codec: lossless over every history, for every documented option
(round trip only)."""
import alphabets as A
from engine import Job, Options
import compressor.headerdiff as hd
from compressor import spdy_dictionary
from compressor.headerdiff import Huffman

CONFIGS = [
    # (parameters, buffer, deflate, huffman)
    ([], 32768, None, 0),
    (['buffer=4096'], 4096, None, 0),
    (['buffer=0'], 0, None, 0),
    (['buffer=1'], 1, None, 0),
    (['buffer=12'], 12, None, 0),
    (['buffer=30'], 30, None, 0),
    (['buffer=90'], 90, None, 0),
    (['delta=false'], 32768, None, 0),
    (['delta=false', 'buffer=30'], 30, None, 0),
    (['delta_type=1'], 32768, None, 0),
    (['delta_type=2', 'buffer=60'], 60, None, 0),
    (["delta_type='/?= \\coma'"], 32768, None, 0),
    (["delta_type='/?= \\coma'", 'buffer=40'], 40, None, 0),
    (['delta_type=', 'buffer=40'], 40, None, 0),
    (['huffman'], 32768, None, 1),
    (['huffman', 'buffer=40'], 40, None, 1),
    (['deflate=12'], 32768, 12, 0),
    (['deflate=15', 'buffer=40'], 40, 15, 0),
    (['deflate=9', 'huffman', 'buffer=4096'], 4096, 9, 1),
]


def make(is_request, params):
    return lambda: hd.Processor(Options, is_request, params)


def ref_maker(is_req, buf, deflate, huff, params):
    from ref_headerdiff import Ref
    codec = None
    if huff:
        codec = Huffman.request_codec if is_req else Huffman.response_codec
    return lambda: Ref(is_req, buf, deflate, codec, spdy_dictionary.spdy_dict)


def jobs(tier, monitor=None):
    out = []
    t = tier == 'thorough'
    for ci, (params, buf, deflate, huff) in enumerate(CONFIGS):
        for is_req in (True, False):
            side = 'req' if is_req else 'res'
            tag = '%s/%s' % (side, ','.join(params))
            mon = monitor(is_req, buf, deflate, huff, params) if monitor \
                else None
            mk = make(is_req, params)
            al = A.requests() if is_req else A.responses()
            al = al + A.prefixes()
            out.append(Job('tree ' + tag, mk, al, 4 if t else 3, monitor=mon))
            out.append(Job('windows ' + tag, mk, al, 4 if t else 3,
                           kind='debruijn', monitor=mon, mode='split'))
            if not t and buf < 100:
                out.append(Job('more tree ' + tag, mk, al[1:], 4,
                               monitor=mon))
                out.append(Job('more tiny windows ' + tag, mk, A.tiny(), 5,
                               kind='debruijn', monitor=mon))
            out.append(Job('batch ' + tag, mk, al, 3 if t else 2, mode='batch',
                           monitor=mon))
            out.append(Job('tiny windows ' + tag, mk, A.tiny(), 5 if t else 4,
                           kind='debruijn', monitor=mon))
            out.append(Job('repeats ' + tag, mk, A.repeats() + A.tiny()[:2],
                           4 if t else 3, kind='debruijn', monitor=mon))
            # non-initial states: tables of about 63, 80 and 200 entries, so
            # that indices take every encoded length
            for n in (62, 79, 150):
                pre = A.fill(n)
                out.append(Job('tree after %d %s' % (n, tag), mk,
                               al[:3] + al[-2:] + A.fill(n)[:1], 3 if t else 2,
                               monitor=mon, prelude=pre))
    for params, buf, deflate, huff in (CONFIGS[0], CONFIGS[4], CONFIGS[14],
                                       CONFIGS[15], CONFIGS[16]):
        for is_req in (True, False):
            mon = monitor(is_req, buf, deflate, huff, params) if monitor \
                else None
            for kind, hs in (('lengths', A.lengths(40000 if not params
                                                   else 300)),
                             ('octets', A.octets())):
                out.append(Job('%s %s/%s' % (
                    kind, 'req' if is_req else 'res', ','.join(params)),
                    make(is_req, params), [], 0, kind='list', histories=hs,
                    monitor=mon))
    for huff in (0, 1):
        # 14-bit index overflow: more than 64 + 16383 entries
        p = ['delta=false', 'buffer=9999999'] + (['huffman'] if huff else [])
        hist = []
        for i in range(70 if t or not huff else 1):
            hist.append((dict(('n', '\0'.join('%d' % (250 * i + j)
                               for j in range(250))) for _ in (0,)), A.H))
        hist += [({'n': '16440\x0017400\x0016446\x0016447\x0016448\x003'},
                  A.H)]
        out.append(Job('long index huff=%d' % huff, make(True, p), [], 0,
                       kind='list', histories=[hist],
                       monitor=monitor and monitor(True, 9999999, None, huff,
                                                   p)))
    return out
