import json
import os
import subprocess
import common
import cpp
import jyreplay

BOUNDS = {
    'quick': 'Python (5 implementations) and C++ (2): every pair of stores '
             'from 32-38 (all widths 1-17 and to 40 bits) at each of 8 bit '
             'offsets read back in equal chunks of 1-40 bits; every pair of '
             'reads at each of 8 offsets; every sequence of 4 mixed '
             'operations, clears included',
    'thorough': 'as quick, with every chunk size for every pair of stores '
                'and every sequence of 5 mixed operations',
}
DIRS = ('delta', 'delta_bohe')


def build(tmp):
    jobs = {}
    for d in DIRS:
        src = os.path.join(common.REPO, 'compressor', d)
        jobs['bits_' + d] = ([os.path.join(common.VERIF, 'cc', 'bits.cc'),
                              os.path.join(src, 'utils.cc')], [src])
    return cpp.build(jobs, tmp)


def check(tier, res):
    common.run_jython_shards('c08', tier, res)
    with common.Scratch() as tmp:
        bins = build(tmp)
        procs = {d: cpp.shards(bins['bits_' + d], 'c++ ' + d, tier, tmp, res,
                               4) for d in DIRS}
        for d in DIRS:
            cpp.collect(procs[d], 'c++ ' + d, res)


def replay(path):
    v = json.load(open(path))
    if not v['job'].startswith('c++ '):
        return jyreplay.replay('c08', path)
    with common.Scratch() as tmp:
        b = build(tmp)['bits_' + v['job'][4:]]
        return 1 if subprocess.call([b, 'replay', v['case']]) else 0
