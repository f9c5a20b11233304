from common import run_py3_shards
import jyreplay

BOUNDS = {'quick': 'every combination of scheme, host, path, query, fragment and given Host header; every sequence of up to 5 header fields; statuses, phrases, versions; files that parse and files that do not', 'thorough': 'as quick, up to 6 fields'}


def check(tier, res):
    run_py3_shards('p11', tier, res)


def replay(path):
    return jyreplay.replay3('p11', path)
