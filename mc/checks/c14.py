from common import run_py3_shards
import jyreplay

BOUNDS = {'quick': 'every message sequence of up to 3 messages; every line-up of the baseline and up to 3 of 9 recording codecs (clean, lossy at a message, altering, inventing, not decompressing, changing its input; with parameters), 5 session shapes, debug on and off; verbosity 0 to 5', 'thorough': 'as quick, sequences of 4, all ordered line-ups of 3'}


def check(tier, res):
    run_py3_shards('p14', tier, res)


def replay(path):
    return jyreplay.replay3('p14', path)
