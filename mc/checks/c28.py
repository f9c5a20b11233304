from common import run_jython_shards
import jyreplay

BOUNDS = {
    'quick': 'both directions: every value of the tables of 20 fields with '
             'encodings of their own, every pair of 40 fields in one message '
             'and in histories of three messages, all 57 fields at once, '
             'names of every length to 127, values of every length to 700 '
             'and of every octet',
    'thorough': 'as quick, every triple of fields, values of every length to '
                '1500 and of every pair of octets',
}


def check(tier, res):
    run_jython_shards('c28', tier, res)


def replay(path):
    return jyreplay.replay('c28', path)
