from common import run_jython_shards
import jyreplay

BOUNDS = {
    'quick': 'every history of 3 messages over 5 requests (2 over responses), 3 over 6 tiny messages, 2 over 6 messages of long toggle ranges; sessions with every window; tables filled with 180, 200 and 383 entries first; 260 hosts; 21 option combinations; and of 4 over 6 tiny messages for those with limits',
    'thorough': 'as quick, one or two messages deeper',
}


def check(tier, res):
    run_jython_shards('c06', tier, res)


def replay(path):
    return jyreplay.replay('c06', path)
