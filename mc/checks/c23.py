from common import run_jython_shards
import jyreplay

BOUNDS = {'quick': 'the histories of C02 (all table sizes), of C04 (all option sets; trees for requests) and, for requests and 8 option sets, of C06, for 4 limits of C24, decoded at once', 'thorough': 'all histories of the thorough checks of C02, C04, C06 and C24'}


def check(tier, res):
    run_jython_shards('c23', tier, res)


def replay(path):
    return jyreplay.replay('c23', path)
