import json
import os
import subprocess
import common
import cpp
import jyreplay

BOUNDS = {
    'quick': '6 Python and 2 C++ coders, request and response tables: code '
             'completeness and minimality, every symbol at every bit offset, '
             'all texts of 2 and 3 symbols over 12; every frequency table of '
             '2-5 symbols over {0,1,2,7,1000} and skewed ones (Python), 23 '
             'families of 257-symbol tables (C++)',
    'thorough': 'as quick, texts of 4 symbols, tables of 6 symbols, 66 '
                'families of 257-symbol tables',
}
DIRS = ('delta', 'delta_bohe')


def build(tmp):
    jobs = {}
    for d in DIRS:
        src = os.path.join(common.REPO, 'compressor', d)
        jobs['huff_' + d] = ([os.path.join(common.VERIF, 'cc', 'huff.cc'),
                              os.path.join(src, 'header_freq_tables.cc'),
                              os.path.join(src, 'utils.cc')], [src])
    return cpp.build(jobs, tmp)


def check(tier, res):
    common.run_jython_shards('c09', tier, res)
    with common.Scratch() as tmp:
        bins = build(tmp)
        procs = {d: cpp.shards(bins['huff_' + d], 'c++ ' + d, tier, tmp, res,
                               4) for d in DIRS}
        for d in DIRS:
            cpp.collect(procs[d], 'c++ ' + d, res)


def replay(path):
    v = json.load(open(path))
    if not v['job'].startswith('c++ '):
        return jyreplay.replay('c09', path)
    with common.Scratch() as tmp:
        b = build(tmp)['huff_' + v['job'][4:]]
        return 1 if subprocess.call([b, 'replay', v['case'].split()[0]]) else 0
