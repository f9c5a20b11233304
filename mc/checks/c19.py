from common import run_py3_shards
import jyreplay

BOUNDS = {'quick': 'every history of up to 5 messages over 6, in 2 field orders, both directions', 'thorough': 'as quick, histories of 6'}


def check(tier, res):
    run_py3_shards('p19', tier, res)


def replay(path):
    return jyreplay.replay3('p19', path)
