from common import run_py3_shards
import jyreplay

BOUNDS = {'quick': 'every history of up to 5 messages over 6, in 3 field orders, both directions; every choice of up to 3 of 6 fields over 8 values', 'thorough': 'as quick, histories of 6'}


def check(tier, res):
    run_py3_shards('p17', tier, res)


def replay(path):
    return jyreplay.replay3('p17', path)
