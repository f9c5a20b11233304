from common import run_py3_shards
import jyreplay

BOUNDS = {'quick': 'streams of up to 4 messages over 4 sizes, sums of up to 4 streams in 3 orders, TSV of up to 3 streams', 'thorough': 'as quick, 5 messages and 5 streams'}


def check(tier, res):
    run_py3_shards('p15', tier, res)


def replay(path):
    return jyreplay.replay3('p15', path)
