#!/usr/bin/env python3
"""Checks that the tools the framework needs are there; builds and parses everything once."""
import os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vlib')
import infra, conc, webconc, checks
c = infra.Ctx('setup', 1, 'quick')
try:
    c.classes_dir()
    for f in sorted(os.listdir(V + '/spec')):
        if f.endswith('.tla'):
            r = subprocess.run(['java', '-cp', infra.JARS, 'tla2sany.SANY', f], cwd=V + '/spec', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(f, r.stdout[-2000:])
                sys.exit(1)
    for d in ('web', 'sums'):
        c.build(d, ('wk',))
    conc.binaries(c, 'maps', checks.MAPS)
    conc.binaries(c, 'webconc', webconc.PKGS, ('wk',))
    print('ok')
finally:
    c.close()
