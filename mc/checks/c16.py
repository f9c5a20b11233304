from common import run_py3_shards
import jyreplay

BOUNDS = {'quick': '8 sets of capture files x 12 codec line-ups (9 different codecs, parameters, baselines) x 3 streamifiers x TSV off, on, with prefix x verbosity; every capture of up to 4 entries over 3, split over up to two files', 'thorough': 'as quick, all verbosities, 5 entries'}


def check(tier, res):
    run_py3_shards('p16', tier, res)


def replay(path):
    return jyreplay.replay3('p16', path)
