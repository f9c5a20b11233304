from common import run_jython_shards
import jyreplay

BOUNDS = {'quick': '8 table sizes of http2, 6 configurations of headerdiff, 10 of delta2 and 3 of delta, both directions (long tables: requests); all first messages of one or two operations from the whole repertoire (table positions, name forms, value sizes that evict nothing, some, all), then, after one operation, every message of one more; the whole table is read after each', 'thorough': 'as quick with one more operation, two-operation first messages for the long tables too'}


def check(tier, res):
    run_jython_shards('c22', tier, res)


def replay(path):
    return jyreplay.replay('c22', path)
