from common import run_jython_shards
import jyreplay

BOUNDS = {
    'quick': 'every history of 3 messages (2 delayed) over the request/response alphabets, plus prefix-sharing and size-critical messages; one session with every window; 19 option combinations; and of 4 over 7 messages for the 10 with tables below 100 octets',
    'thorough': 'as quick, one message deeper',
}


def check(tier, res):
    run_jython_shards('c04', tier, res)


def replay(path):
    return jyreplay.replay('c04', path)
