#!/usr/bin/env python3
"""Run the quick check of each planted bug's property against it: regress.py [-j N] [NAME-PREFIX...]"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH='/opt/veriftools/go1.24.13/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
           VERIF_GOCACHE='/tmp/gocache', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')


def one(name):
    d = os.path.join(HERE, 'seeded', name)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    work = tempfile.mkdtemp(prefix='regress.')
    try:
        clone = os.path.join(work, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', clone], check=True)
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=clone, check=True)
        os.mkdir(os.path.join(work, 'ev'))
        t = time.time()
        p = subprocess.run([sys.executable, 'run.py', prop], cwd=HERE, env=dict(ENV, VERIF_REPO=clone, VERIF_EVID=os.path.join(work, 'ev')),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        ok = p.returncode == 1 and v
        print('%-28s %s rc=%d %ds %s' % (name, 'CAUGHT' if ok else 'MISSED', p.returncode, time.time() - t,
                                         p.stdout.strip().splitlines()[0][:150] if ok else p.stdout[-300:]), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


args = sys.argv[1:]
jobs = 2
if args[:1] == ['-j']:
    jobs = int(args[1])
    args = args[2:]
names = [n for n in sorted(os.listdir(os.path.join(HERE, 'seeded'))) if not args or any(n.startswith(a) for a in args)]
with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, names))
