"""C15: the edit scripts, bounded: the real function is executed for every pattern of equal lines up to a bound."""
import json
import os
import time

from . import build, check, native, props


def main(prop, only=None, verbose=False):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    work = build.workdir()
    try:
        exes = native.make(work, 'C15.cpp', repo=False)
    except build.BuildError as e:
        print('ERROR: build failed:', str(e)[-3000:])
        return 2
    total = exhaustive = 0
    bad = None
    for mode, lines, rounds in (('fast', 7, 100000 if tier == 'thorough' else 2000), ('san', 5, 200)):
        b, n, x = native.run(exes[mode], [lines, seed, rounds], 400)
        total += n
        exhaustive += x
        bad = bad or b
    code = 0
    os.makedirs(check.EVID, exist_ok=True)
    if bad is not None:
        code = 1
        path = os.path.join(check.EVID, prop + '.replay')
        with open(path, 'w') as f:
            f.write('# property C15; lines with the same number are equal. reproduce: build harness/C15.cpp (dv/native.py)\n' + bad[-6000:])
        print(bad[-1500:])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level=props.CONFIG[prop]['level'], coverage=dict(
        evaluations=total, distinct_nontrivial=exhaustive,
        rule='BOUNDED, nothing is proved. Exhaustive: every pattern of equal and different lines with at most 7 lines on each side (5 with sanitizers); '
             'further pseudo-random pairs of up to 500 lines and shapes of up to 70000 lines. Each pattern differs from every other one; '
             'judged by the definition of a script, the length of the longest common subsequence and the order within changed blocks.',
        samples=['from 0 1 2, to 1 0 2'], exhaustive=code == 0), assumptions=['what the script does depends only on which lines are equal, beyond the texts that are tried'],
        wall_s=round(wall, 1), violations=code)
    with open(os.path.join(check.EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: bounded, %d pairs (%d by exhaustive patterns), %.0f s' % (prop, total, exhaustive, wall))
    return code
