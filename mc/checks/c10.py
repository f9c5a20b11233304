from common import run_jython_shards
import jyreplay

BOUNDS = {'quick': 'every reachable state of 14 bounded configurations with wrapping numbers (to the fixed point) and every state within 4 operations of 4 unbounded ones, each reached by its own history of 11 operations; every sequence of 3 operations unmerged', 'thorough': 'as quick, two larger configurations to the fixed point, 6 operations, sequences of 4'}


def check(tier, res):
    run_jython_shards('c10', tier, res)


def replay(path):
    return jyreplay.replay('c10', path)
