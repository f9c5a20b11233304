from common import run_jython_shards
import jyreplay

BOUNDS = {
    'quick': 'every history of 3 messages (2 when decoding is delayed) over 9-10 messages that include one or more values as large as a third of the table, and of 4 over 6 tiny messages; one session containing every such window; table sizes default,0,33,80,200,1450,1600,8192; requests and responses; and of 4 over 7 messages, of 5 over the tiny ones, for 80, 200, 1450 and 1600',
    'thorough': 'as quick with depth 4 (3 delayed, 6 tiny)',
}


def check(tier, res):
    run_jython_shards('c01', tier, res)


def replay(path):
    return jyreplay.replay('c01', path)
