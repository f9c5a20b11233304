from common import run_py3_shards
import jyreplay

BOUNDS = {'quick': 'every sequence of up to 5 messages over 9 hosts, for 3 streamifiers', 'thorough': 'as quick, 6 messages'}


def check(tier, res):
    run_py3_shards('p12', tier, res)


def replay(path):
    return jyreplay.replay3('p12', path)
