"""worker.py MODULE TIER SHARD NSHARDS OUT [REPLAY.json]   (Jython)"""
import json
import os
import shutil
import sys
import tempfile
import traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, HERE]
import engine


class Null(object):
    def write(self, *a):
        pass

    def flush(self):
        pass


def in_repo():
    """Whether the exception at hand was raised by code of /repo."""
    last = traceback.extract_tb(sys.exc_info()[2])[-1]
    return os.path.realpath(str(last[0])).startswith(os.path.realpath(REPO))


def explore(mod, tier, shard, nshards, out):
    if hasattr(mod, 'run'):
        mod.run(tier, int(shard), int(nshards), out)
    else:
        engine.main(mod.jobs(tier), int(shard), int(nshards), out)


def main():
    module, tier, shard, nshards, out = sys.argv[1:6]
    real = sys.stdout
    sys.stdout = Null()
    try:
        mod = __import__(module)
    except engine.Failure:
        # a failure to import code of /repo is a violation of its own
        if not in_repo():
            raise
        what = 'the code cannot be imported: ' + engine.exc()
        sys.stdout = real
        if len(sys.argv) > 6:
            print('FAILS: ' + what)
            sys.exit(1)
        st = engine.Stats()
        st.violations.append({'job': 'import', 'case': module, 'history': [],
                              'what': what})
        engine.write_result(st, out)
        return
    if len(sys.argv) > 6:
        f = open(sys.argv[6])
        data = json.loads(f.read())
        f.close()
        st = engine.Stats()
        if data['job'] == 'preparation':
            text = None
            t, k, n = data['case']
            tmp = tempfile.mkdtemp()
            try:
                explore(mod, t, k, n, os.path.join(tmp, 'out'))
            except engine.Failure:
                text = engine.exc()
            finally:
                shutil.rmtree(tmp)
        elif hasattr(mod, 'replay'):
            text = mod.replay(data)
        else:
            text = 'job not found'
            for t in (tier, 'thorough'):
                job = [j for j in mod.jobs(t) if j.name == data['job']]
                if job:
                    hist = engine.dec_hist(data['history'])
                    st.current = (job[0], hist)
                    try:
                        engine.run_history(job[0], hist, st)
                        text = None
                    except engine.Violation as v:
                        text = str(v)
                    break
        sys.stdout = real
        if text:
            print('FAILS: ' + text)
            sys.exit(1)
        print('holds')
        return
    try:
        explore(mod, tier, shard, nshards, out)
    except engine.Failure:
        if not in_repo():
            raise
        # outside of any case: while a case was being prepared
        st = engine.Stats()
        st.violations.append({'job': 'preparation', 'history': [],
                              'case': [tier, shard, nshards],
                              'what': 'code of the repository failed while a '
                              'case was prepared: ' + engine.exc()})
        engine.write_result(st, out)


main()
