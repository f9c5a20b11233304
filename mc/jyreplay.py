import os
import subprocess
import common


def replay(module, path):
    return subprocess.call(common.jython(
        [os.path.join(common.JY, 'worker.py'), module, 'quick', '0', '1',
         '/dev/null', os.path.abspath(path)]), env=common.env())


def replay3(module, path):
    return subprocess.call(
        [common.PY3, '-B', common.PYW, module, 'quick', '0', '1',
         '/dev/null', os.path.abspath(path)], env=common.env())
