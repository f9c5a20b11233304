from common import run_py3_shards
import jyreplay

BOUNDS = {'quick': 'text and binary framing: every sequence of 1 to 3 answers over 6, every split of an answer into two writes at the first 130 positions, writes of 1, 2, 3, 7, 4096 and 65536 octets, every order of 6 messages over two children', 'thorough': 'as quick, sequences of 4, 200 positions, orders of 7'}


def check(tier, res):
    run_py3_shards('p20', tier, res)


def replay(path):
    return jyreplay.replay3('p20', path)
