#!/usr/bin/env python3
"""Is every planted bug still one?  recheck.py [NAME-prefix...]: each patch must apply to /repo's HEAD, remove
original lines only, build, pass the tests, and its demonstration must fail with it and pass without."""
import os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant


def one(name):
    d = os.path.join(plant.HERE, 'seeded', name)
    work = tempfile.mkdtemp(prefix='recheck.')
    clone = os.path.join(work, 'repo')
    try:
        subprocess.run(['git', 'clone', '-q', plant.REPO, clone], check=True)
        demo = os.path.join(work, 'demo')
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        rc, out = plant.sh(['bash', os.path.join(demo, 'demo.sh')], clone)
        if rc:
            return 'demo fails on the unchanged tree: ' + out[-300:]
        rc, out = plant.sh(['git', 'apply', os.path.join(d, 'patch.diff')], clone)
        if rc:
            return 'does not apply: ' + out[-300:]
        removed, bad = plant.originals(clone, open(os.path.join(d, 'patch.diff')).read())
        if bad or not removed:
            return 'not original: %d %s' % (removed, bad)
        if plant.sh(['go', 'build', './...'], clone)[0]:
            return 'does not build'
        rc, bad, out = plant.tests(clone)
        if rc:
            return 'tests fail %s' % sorted(bad)
        rc, out = plant.sh(['bash', os.path.join(demo, 'demo.sh')], clone)
        return 'ok' if rc == 1 else 'demo passes with the patch (rc %d)' % rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


names = [n for n in sorted(os.listdir(os.path.join(plant.HERE, 'seeded'))) if len(sys.argv) < 2 or any(n.startswith(a) for a in sys.argv[1:])]
with ThreadPoolExecutor(4) as ex:
    bad = 0
    for n, r in zip(names, ex.map(one, names)):
        if r != 'ok':
            print(n, r, flush=True)
            bad += 1
print('%d planted bugs, %d no longer are' % (len(names), bad))
