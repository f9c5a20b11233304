from common import run_jython_shards
import jyreplay

BOUNDS = {
    'quick': '18 sets of parameters, both directions: every history of 3 '
             'messages over 5, and 3 over 6 tiny ones; every pair of 17; every '
             'pair of 12 with names that are short names or special words; '
             'every date of 32; values of every length to 300 and of every '
             'octet (those of ASCII with seven)',
    'thorough': 'as quick, one or two messages deeper',
}


def check(tier, res):
    run_jython_shards('c26', tier, res)


def replay(path):
    return jyreplay.replay('c26', path)
