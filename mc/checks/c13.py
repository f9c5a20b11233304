from common import run_py3_shards
import jyreplay

BOUNDS = {'quick': 'every pair of header dictionaries over a small grammar of names and values', 'thorough': 'the same'}


def check(tier, res):
    run_py3_shards('p13', tier, res)


def replay(path):
    return jyreplay.replay3('p13', path)
