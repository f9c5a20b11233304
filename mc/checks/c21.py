import json
from common import run_jython_shards, run_py3_shards
import jyreplay

BOUNDS = {'quick': 'all 14 codecs in 26 pairs of configurations, three pairs '
          'of directions, 18 (bohe: 9; codecs of the tool\'s own interpreter: '
          '108) '
          'pairs of two-message sequences each (fork: 2), all 70 '
          'interleavings of their compress and decompress calls',
          'thorough': 'as quick, all 81 (1296) pairs of sequences, and all '
          '924 interleavings of three messages'}


def check(tier, res):
    run_jython_shards('c21', tier, res)
    run_py3_shards('p21', tier, res)


def replay(path):
    if 'CPython' in json.load(open(path))['job']:
        return jyreplay.replay3('p21', path)
    return jyreplay.replay('c21', path)
