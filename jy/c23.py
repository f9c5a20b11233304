"""Encoders use what the receiver holds, as their options say."""
import c01
import c03
import c05
import c07
import thrift
from compressor import spdy_dictionary
from compressor.headerdiff import Huffman

HEAVY = ('more', 'batch', 'lengths', 'octets', 'big', 'hosts')

# configurations of delta2 for the quick check
DELTA2 = ('', 'max_byte_size=60', 'max_entries=3', 'hg_adjust=1,max_entries=6',
          'implicit_hg_add=t,max_entries=5', 'only_etoggles=true',
          'only_etoggles=true,implicit_hg_add=true,max_entries=6',
          'idx_from_end=false')


def http2(is_req, limit):
    return lambda: thrift.Http2(is_req, limit)


def headerdiff(is_req, buf, deflate, huff, params):
    codec = None
    if huff:
        codec = Huffman.request_codec if is_req else Huffman.response_codec
    opts = dict(p.split('=', 1) for p in params if '=' in p)
    kind = opts.get('delta_type', '')

    def make():
        ref = thrift.HeaderDiff(is_req, buf, deflate, codec,
                                spdy_dictionary.spdy_dict)
        ref.delta = opts.get('delta') != 'false'
        if kind.isdigit():
            ref.most = int(kind)
        elif kind:
            ref.ends = kind.strip("'").replace('\\coma', ',')
        return ref
    return make


def delta2(is_req, params, args):
    def make():
        ref = thrift.Delta2(c05.book(is_req), **args)
        ref.explicit = 'only_etoggles=true' in params
        return ref
    return make


# configurations of delta for the quick check
DELTA = ('', 'max_byte_size=40', 'max_entries=2', 'max_entries=9')


def delta(is_req, params):
    args = c07.ref_args(params)
    return lambda: thrift.Delta(c07.book(is_req), **args)


def jobs(tier):
    out = []
    for name, js in (('http2', c01.jobs(tier, http2)),
                     ('headerdiff', c03.jobs(tier, headerdiff)),
                     ('delta2', c05.jobs(tier, delta2)),
                     ('delta', c07.jobs(tier, delta))):
        for j in js:
            if j.name.split()[0] in HEAVY and tier != 'thorough':
                continue
            side, params = (j.name.split()[-1] + '/').split('/')[:2]
            if tier != 'thorough' and (
                    name == 'delta2' and (side == 'res' or
                                          params not in DELTA2) or
                    name == 'delta' and (side == 'res' or
                                         params not in DELTA) or
                    side == 'res' and 'tree' in j.name):
                continue
            j.name = name + ' ' + j.name
            out.append(j)
    return out
