#!/opt/venv/bin/python
"""Nothing is compiled ahead of time; make sure that what the checks need is
there and that both interpreters start."""
import os
import subprocess
import sys
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'mc')]
import common  # noqa
os.makedirs(os.path.join(common.VERIF, 'evidence'), exist_ok=True)
with common.Scratch() as tmp:
    out = subprocess.check_output(
        common.jython(['-c', 'print 6 * 7']), env=common.env(), cwd=tmp)
assert out.strip() == b'42', out
subprocess.check_call(['g++', '--version'], stdout=subprocess.DEVNULL)
subprocess.check_call([common.PY3, '-c', 'import hpack, bitarray, publicsuffix'])
print('ready')
