import json
import os
import subprocess
import common
import cpp

BOUNDS = {
    'quick': 'both copies of the encoder under AddressSanitizer and UBSan: '
             'every history of 3 frames over 14 header lists and of 2 frames '
             'over 17 in two header groups (response tables: 2), and sessions '
             'with every window of three frames over 13; 10 limits',
    'thorough': 'as quick, one frame deeper',
}
DIRS = ('delta', 'delta_bohe')


def build(tmp, dirs=DIRS):
    jobs = {}
    for d in dirs:
        src = os.path.join(common.REPO, 'compressor', d)
        jobs[d] = ([os.path.join(common.VERIF, 'cc', 'headers.cc')] +
                   [os.path.join(src, f) for f in (
                       'spdy4_headers_codec.cc', 'header_freq_tables.cc',
                       'utils.cc')], [src])
    # the Makefile builds without assertions, too
    return cpp.build(jobs, tmp, cpp.FLAGS + ['-DNDEBUG'])


def check(tier, res):
    with common.Scratch() as tmp:
        bins = build(tmp)
        procs = {d: cpp.shards(bins[d], 'c++ ' + d, tier, tmp, res, 4)
                 for d in DIRS}
        for d in DIRS:
            cpp.collect(procs[d], 'c++ ' + d, res)


def replay(path):
    v = json.load(open(path))
    d = v['job'].split()[-1]
    with common.Scratch() as tmp:
        b = build(tmp, [d])[d]
        e = common.env()
        e.update(cpp.ENV)
        return 1 if subprocess.call([b, 'replay', v['case'].split()[0]],
                                    env=e) else 0
