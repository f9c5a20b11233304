"""Builds C++ harnesses against /repo and runs their shards."""
import os
import subprocess
import time
import common

FLAGS = ['-std=c++0x', '-g', '-O1', '-include', 'cstdint', '-include', 'cmath',
         '-include', 'array', '-w', '-fno-omit-frame-pointer',
         '-fsanitize=address,undefined',
         '-fno-sanitize-recover=undefined']
STALL = 90
ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:'
       'hard_rss_limit_mb=3000',
       'UBSAN_OPTIONS': 'print_stacktrace=1'}


def build(jobs, tmp, flags=FLAGS, timeout=400):
    """jobs: {name: (sources, include directories)}. Returns {name: binary}."""
    procs, out = [], {}
    for name, (sources, incs) in jobs.items():
        out[name] = os.path.join(tmp, name)
        objs = []
        cmd = ['g++'] + flags + ['-I' + i for i in incs] + sources + \
            ['-o', out[name]]
        log = open(os.path.join(tmp, name + '.log'), 'wb')
        procs.append((name, subprocess.Popen(
            cmd, stdout=log, stderr=log, env=common.env(), cwd=tmp,
            preexec_fn=common.limits), log.name))
    for name, p, log in procs:
        if p.wait(timeout):
            raise common.CheckError('%s does not compile:\n%s' % (
                name, open(log, errors='replace').read()[-3000:]))
    return out


def run(binary, args, log, timeout=800):
    e = common.env()
    e.update(ENV)
    return subprocess.Popen([binary] + args, stdin=subprocess.DEVNULL,
                            stdout=open(log + '.out', 'wb'),
                            stderr=open(log + '.err', 'wb'), env=e,
                            cwd=os.path.dirname(log),
                            preexec_fn=common.limits)


def shards(binary, job, tier, tmp, res, n, timeout=800, stall=60):
    """Each shard announces its case in a log file before it runs it, so that a
    crash or a hang can be attributed."""
    procs = []
    for s in range(n):
        log = os.path.join(tmp, '%s-%d' % (job.replace(' ', '_'), s))
        procs.append((run(binary, [tier, str(s), str(n), log + '.case'], log),
                      log))
    return procs


def collect(procs, job, res, timeout=800):
    start = time.time()
    deadline = start + timeout
    for p, log in procs:
        hung = False
        while p.poll() is None:
            # a shard that announces no new case for STALL seconds hangs
            try:
                t = max(os.path.getmtime(log + '.case'), start)
            except OSError:
                t = start
            if time.time() > deadline or time.time() - t > STALL:
                hung = True
                break
            time.sleep(0.05)
        common.kill(p)
        p.wait()
        case = ''
        if os.path.exists(log + '.case'):
            case = open(log + '.case', errors='replace').readline().strip()
        done = False
        for line in open(log + '.out', errors='replace'):
            line = line.rstrip('\n')
            if line.startswith('BAD '):
                c, what = line[4:].split(' | ', 1)
                res.violation(what, job=job, case=c)
                done = True
            elif line.startswith('DONE '):
                done = True
                d = dict(x.split('=') for x in line.split()[1:])
                res.traces += int(d['traces'])
                res.transitions += int(d['steps'])
                res.n_states += int(d['states'])
        if hung:
            res.violation('no answer (hang)', job=job, case=case)
        elif p.returncode != 0 or not done:
            err = open(log + '.err', errors='replace').read()
            pick = [l for l in err.splitlines()
                    if 'ERROR' in l or 'error' in l or 'ssert' in l
                    or 'Logic' in l or 'Oops' in l]
            res.violation('the process died (%s): %s' % (
                p.returncode, ' '.join((pick or err.splitlines())[:3])[:400]),
                job=job, case=case)
