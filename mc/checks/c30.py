from common import run_py3_shards
import jyreplay

BOUNDS = {'quick': 'every table of sizes in {0, 1, 9, 10, 250} for 1 codec and '
          'up to 3 messages and 2 codecs and up to 2, of sizes in {0, 9, 250} '
          'for 2 codecs by 3 and 3 by 2; every way to divide up to 6 messages '
          'into streams for 1 to 3 codecs; 1 to 10 codecs by 1 to 130 '
          'messages with sizes of 1 to 7 digits; all for both charts',
          'thorough': 'as quick, with 5 messages for one codec, 3 for two, 3 '
          'by 3 and 7 messages divided'}


def check(tier, res):
    run_py3_shards('p30', tier, res)


def replay(path):
    return jyreplay.replay3('p30', path)
