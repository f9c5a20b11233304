from common import run_py3_shards
import jyreplay

BOUNDS = {'quick': 'every history of up to 2 messages over 6 requests and 6 '
          'responses and messages with values and field counts around every '
          'power of two, through the real fork codec; the end of the input '
          'at every octet of a message (every 9th of the long ones), first '
          'or after another; the reader gone after 0 to 2 answers',
          'thorough': 'histories of up to 3 messages; every octet of every '
          'message'}


def check(tier, res):
    run_py3_shards('p29', tier, res)


def replay(path):
    return jyreplay.replay3('p29', path)
