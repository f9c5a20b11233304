from common import run_jython_shards
import jyreplay

BOUNDS = {
    'quick': 'every history of 3 messages over 5 requests (2 over responses), 3 over 6 tiny messages and over 4 messages of two groups that share fields, 2 over 6 range messages and over messages with all predefined names; every pair of messages with 255-520 operations; one session of 234 messages with 300 fields each that renumbers past 2**16; 10 limit combinations; and of 4 over 6 tiny messages for those with limits',
    'thorough': 'as quick, one or two messages deeper',
}


def check(tier, res):
    run_jython_shards('c24', tier, res)


def replay(path):
    return jyreplay.replay('c24', path)
