"""Bounded stand-ins that execute the real code natively: built from the current sources, with and without sanitizers."""
import concurrent.futures
import os
import re
import subprocess
import time

from . import build

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=c++23', '-D__cpp_concepts=202002L', '-w', '-fsized-deallocation', '-D_GLIBCXX_ASSERTIONS']
MODES = dict(fast=['-O2'], san=['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'])
PARTS = 8


def make(work, harness, repo=True):
    """{mode: executable}"""
    flags = FLAGS + ['-I' + build.REPO + '/include', '-I' + build.REPO + '/src/main/cpp']
    srcs = [os.path.join(VERIF, 'harness', harness)] + (build.repo_sources() if repo else [])
    d = os.path.join(work, 'native')
    os.makedirs(d, exist_ok=True)

    def one(a):
        mode, s = a
        o = os.path.join(d, mode + '.' + os.path.basename(s) + '.o')
        build.run([build.CLANG] + flags + MODES[mode] + ['-c', s, '-o', o])
        return o
    jobs = [(m, s) for m in MODES for s in srcs]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    out = {}
    for m in MODES:
        exe = os.path.join(d, harness + '.' + m)
        build.run([build.CLANG] + MODES[m] + [o for o, j in zip(objs, jobs) if j[0] == m] + ['-o', exe])
        out[m] = exe
    return out


def run(exe, args, limit):
    """(output of the first part that fails or None, runs, exhaustive)"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    ps = [subprocess.Popen([exe, str(k), str(PARTS)] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env) for k in range(PARTS)]
    end = time.time() + limit
    bad = None
    runs = exhaustive = 0
    for p in ps:
        late = False
        try:
            o = p.communicate(timeout=max(1, end - time.time()))[0]
        except subprocess.TimeoutExpired:
            late = True
            p.kill()
            o = p.communicate()[0]
        o = o.decode(errors='replace')
        m = re.search(r'DVF runs (\d+) exhaustive (\d+)', o)
        if m and p.returncode == 0:
            runs += int(m.group(1))
            exhaustive += int(m.group(2))
        elif bad is None or 'DVF' in o and 'DVF' not in bad:
            bad = ('no return within %d s\n' % limit if late else '') + o
    return bad, runs, exhaustive
