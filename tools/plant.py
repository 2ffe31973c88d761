#!/usr/bin/env python3
"""Make planted bugs: plant.py [--check] [--redo] FILE.py [NAME...]

FILE.py defines PLANTS, a list of dicts with
  id, property, file->subs (list of (file, old, new)), needs, breaks,
  pkg (directory of the package the demonstration lives in) and demo (its Go source).
Each is applied to a clone of /repo, built, run through the stable tests and through
its demonstration (with and without the change); only if all of that is as it must be
is /verif/seeded/<id>/ written. With --check the property's quick check is run as well.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = '90472f9'
ENV = dict(os.environ, PATH='/opt/veriftools/go1.24.13/bin:' + os.environ['PATH'],
           GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOCACHE='/tmp/gocache', DEMO_GOCACHE='/tmp/gocache')

DEMO = '''#!/bin/bash
# Runs the demonstration in the package it belongs to. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'chmod -R u+w "$tmp"; rm -rf "$tmp"' EXIT
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOCACHE=${DEMO_GOCACHE:-$tmp/cache} TMPDIR=$tmp
unset GOROOT
printf '{"Replace": {"%%s": "%%s"}}\\n' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./%(pkg)s
'''


def sh(cmd, cwd, timeout=600, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout


def stable(out):
    """The names of the failing stable tests."""
    base = json.load(open('/opt/vp/BASELINE.json'))
    return base


def tests(clone):
    rc, pk = sh(['go', 'list', '-e', './...'], clone)
    pkgs = [p for p in pk.split() if not p.endswith('internal/query')]
    rc, out = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-parallel', '1'] + pkgs, clone)
    bad = set()
    for line in out.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get('Action') == 'fail':
            bad.add(d.get('Package', '') + ' ' + (d.get('Test') or ''))
        if d.get('Action') == 'build-fail':
            bad.add('build ' + str(d))
    return rc, bad, out


def originals(clone, patch):
    """Whether every line the patch removes comes from the original commit."""
    cur, old, bad, removed = None, 0, [], 0
    blame = {}
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            cur = line[6:]
            rc, out = sh(['git', 'blame', '-s', 'HEAD', '--', cur], REPO)
            blame[cur] = out.splitlines()
        elif line.startswith('@@'):
            old = int(line.split()[1][1:].split(',')[0])
        elif line.startswith('-') and not line.startswith('---'):
            removed += 1
            if not blame[cur][old - 1].startswith('^' + BASE):
                bad.append(blame[cur][old - 1])
            old += 1
        elif line.startswith(' '):
            old += 1
    return removed, bad


def main():
    args = sys.argv[1:]
    check = '--check' in args
    redo = '--redo' in args
    args = [a for a in args if not a.startswith('--')]
    plants = runpy.run_path(args[0])['PLANTS']
    results = []
    for p in plants:
        if len(args) > 1 and not any(p['id'].startswith(a) for a in args[1:]):
            continue
        dest = os.path.join(HERE, 'seeded', p['id'])
        if os.path.exists(dest) and not redo and not check:
            continue
        work = tempfile.mkdtemp(prefix='plant.')
        clone = os.path.join(work, 'repo')
        try:
            subprocess.run(['git', 'clone', '-q', REPO, clone], check=True)
            new = os.path.join(work, 'new')
            os.mkdir(new)
            open(os.path.join(new, 'demo.sh'), 'w').write(DEMO % {'pkg': p['pkg']})
            os.chmod(os.path.join(new, 'demo.sh'), 0o755)
            open(os.path.join(new, 'demo_test.go.txt'), 'w').write(p['demo'])
            rc0, out0 = sh(['bash', os.path.join(new, 'demo.sh')], clone)
            if rc0:
                results.append((p['id'], 'DEMO FAILS UNPATCHED\n' + out0[-1500:]))
                continue
            ok = True
            for f, o, n in p['subs']:
                path = os.path.join(clone, f)
                s = open(path).read()
                if s.count(o) != 1:
                    results.append((p['id'], 'SUB %d times: %s %r' % (s.count(o), f, o[:80])))
                    ok = False
                    break
                open(path, 'w').write(s.replace(o, n))
            if not ok:
                continue
            sh(['gofmt', '-l', '.'], clone)
            patch = sh(['git', 'diff'], clone)[1]
            removed, bad = originals(clone, patch)
            if bad or not removed:
                results.append((p['id'], 'NOT ORIGINAL (%d removed) %s' % (removed, bad)))
                continue
            rc, out = sh(['go', 'build', './...'], clone)
            if rc:
                results.append((p['id'], 'NO BUILD\n' + out[-800:]))
                continue
            rc, bad, out = tests(clone)
            if rc:
                results.append((p['id'], 'TESTS FAIL %s\n%s' % (sorted(bad), out[-300:])))
                continue
            fails = [sh(['bash', os.path.join(new, 'demo.sh')], clone) for _ in range(p.get('runs', 2))]
            if not all(f[0] == 1 for f in fails):
                results.append((p['id'], 'DEMO PASSES PATCHED %s\n%s' % ([f[0] for f in fails], fails[0][1][-500:])))
                continue
            if 'FAIL' not in fails[0][1] or 'build failed' in fails[0][1]:
                results.append((p['id'], 'DEMO ODD\n' + fails[0][1][-800:]))
                continue
            open(os.path.join(new, 'patch.diff'), 'w').write(patch)
            json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
                      open(os.path.join(new, 'meta.json'), 'w'), indent=1)
            if os.path.exists(dest):
                shutil.rmtree(dest)
            shutil.copytree(new, dest)
            verdict = 'kept'
            if check:
                env = dict(ENV, VERIF_REPO=clone, VERIF_EVID=os.path.join(work, 'ev'), VERIF_GOCACHE='/tmp/gocache',
                           VERIF_SEED='1', VERIF_TIER='quick')
                os.mkdir(os.path.join(work, 'ev'))
                import time
                t = time.time()
                rc, out = sh([sys.executable, 'run.py', p['property']], HERE, timeout=1800, env=env)
                v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
                verdict += ' check rc=%d %ds %s' % (rc, time.time() - t, v[:1] if v else out[-600:])
                verdict = ('CAUGHT ' if rc == 1 and v else 'MISSED ') + verdict
            results.append((p['id'], verdict))
        finally:
            shutil.rmtree(work, ignore_errors=True)
            if results:
                print(*results[-1], flush=True)


if __name__ == '__main__':
    main()
