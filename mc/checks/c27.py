import json
import os
import subprocess
import common
import cpp

BOUNDS = {
    'quick': 'both copies, under AddressSanitizer and UBSan: every text of 2 '
             'exchanges with up to 2 lines of 4 per frame (1 of 5, 4 of 2), a '
             'malformed line in every place; 370 texts with long values and '
             'NULs through the pipe of the translator; every history of 4 '
             'SPDY/3 frames over 7 header lists and of 2 over 9 (the largest '
             'of 70 kB)',
    'thorough': 'as quick, one line more, frame histories of 5; 3000 texts '
                'through the pipe',
}
DIRS = ('delta', 'delta_bohe')


def build(tmp, dirs=DIRS):
    jobs = {}
    for d in dirs:
        src = os.path.join(common.REPO, 'compressor', d)
        jobs[d] = ([os.path.join(common.VERIF, 'cc', 'sample.cc')] +
                   [os.path.join(src, f) for f in (
                       'spdy4_headers_codec.cc', 'header_freq_tables.cc',
                       'utils.cc')] + ['-lz'],
                   [src, os.path.join(common.REPO, 'compressor', 'spdy3')])
    # the Makefile builds without assertions, too
    return cpp.build(jobs, tmp, cpp.FLAGS + ['-DNDEBUG'])


def check(tier, res):
    with common.Scratch() as tmp:
        bins = build(tmp)
        procs = {d: cpp.shards(bins[d], 'c++ ' + d, tier, tmp, res, 4)
                 for d in DIRS}
        for d in DIRS:
            cpp.collect(procs[d], 'c++ ' + d, res)


def replay(path):
    v = json.load(open(path))
    d = v['job'].split()[-1]
    with common.Scratch() as tmp:
        b = build(tmp, [d])[d]
        e = common.env()
        e.update(cpp.ENV)
        return 1 if subprocess.call([b, 'replay', v['case']],
                                    env=e, cwd=tmp) else 0
