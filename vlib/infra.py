"""Scratch directories, building the drivers against /repo, running them, running TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MODULE = 'github.com/iand/starbow'
GOROOT = '/opt/veriftools/go1.24.13'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def go_env(scratch):
    env = dict(os.environ)
    env.pop('GOROOT', None)
    env.update(PATH=GOROOT + '/bin:' + env.get('PATH', '/usr/bin:/bin'), GOTOOLCHAIN='local', GOPROXY='off',
               GOFLAGS='-mod=mod', GOSUMDB='off', GONOSUMDB='*', HOME=env.get('HOME', '/root'),
               GOCACHE=os.environ.get('VERIF_GOCACHE') or os.path.join(scratch, 'gocache'),
               GOMODCACHE='/root/go/pkg/mod', GOWORK='off', TMPDIR=scratch, GOTMPDIR=scratch)
    return env


class Ctx:
    """One run of a check."""

    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = self.transitions = self.traces = 0
        self.events = 0
        self.samples, self.notes, self.models = [], [], []
        self.known = []
        self.classes = None
        self.lock = threading.Lock()
        self.cleanups = []
        self.n = 0

    def budget(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.scratch, '%03d-%s' % (self.n, name))

    def close(self):
        for f in self.cleanups:
            f()
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- Go ------------------------------------------------------------
    def build(self, name, pkgs, extra_overlay=None, flags=(), must=True):
        """Build the driver harness/<name> as if it were in /repo/internal/verifdrv/<name>."""
        repl = {}
        for d in ('lib',) + tuple(pkgs) + (name,):
            src = os.path.join(VERIF, 'harness', d)
            for f in sorted(os.listdir(src)):
                if f.endswith('.go'):
                    repl['%s/internal/verifdrv/%s/%s' % (REPO, d, f)] = os.path.join(src, f)
        repl.update(extra_overlay or {})
        ov = self.path('overlay.json')
        with open(ov, 'w') as f:
            json.dump({'Replace': repl}, f)
        out = self.path(name)
        # a module of its own, because it has assembly, which overlays cannot have
        mod = os.path.join(os.path.dirname(out), '%s.mod' % os.path.basename(out))
        with open(mod, 'w') as f:
            f.write(open(REPO + '/go.mod').read() + '\nrequire verif.local/g v0.0.0\nreplace verif.local/g => %s/harness/g\n' % VERIF)
        if os.path.exists(REPO + '/go.sum'):
            shutil.copy(REPO + '/go.sum', mod[:-4] + '.sum')
        flags = ('-modfile', mod) + tuple(flags)
        r = subprocess.run(['go', 'build', '-buildvcs=false', '-overlay', ov, *flags, '-o', out, './internal/verifdrv/' + name],
                           cwd=REPO, env=go_env(self.scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            if must:
                raise CheckError('building driver %s failed:\n%s' % (name, r.stdout[-4000:]))
            log('build of', name, 'failed:', r.stdout[-600:])
            return None
        return out

    def run_cases(self, binary, cases, timeout=300, shards=8, args=(), env_extra=None):
        """Run JSON cases through a driver that reads and writes JSON lines; results by case id.
        A crash of the code under test gives the result {'crash': message} for the case it ran."""
        results = {}
        errs = []
        shards = max(1, min(shards, (len(cases) + 3) // 4))

        def work(part):
            todo = list(part)
            crashes = 0
            while todo:
                fi, fo = self.path('in'), self.path('out')
                with open(fi, 'w') as f:
                    for c in todo:
                        f.write(json.dumps(c) + '\n')
                env = go_env(self.scratch)
                env.update(env_extra or {})
                p = subprocess.Popen([binary, fi, fo, *args], stdout=subprocess.DEVNULL,
                                     stderr=subprocess.PIPE, env=env, text=True, errors='replace')
                try:
                    _, err = p.communicate(timeout=timeout)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    errs.append('driver timed out')
                    return
                if os.path.exists(fo):
                    for l in open(fo, errors='replace'):
                        try:
                            d = json.loads(l)
                        except ValueError:
                            continue
                        results[d['id']] = d
                os.unlink(fi)
                if p.returncode == 0:
                    miss = [c['id'] for c in todo if c['id'] not in results]
                    if miss:
                        errs.append('driver gave no result for cases %s' % miss[:5])
                    return
                # died: was it the code under test?
                cur = re.findall(r'^CASE (\d+)', err, re.M)
                m = re.search(r'^(fatal error: .*|panic: .*|SIG\w+: .*|unexpected fault address.*)', err, re.M)
                frames = re.search(re.escape(MODULE) + r'/internal/(?!verifdrv)', err)
                if not cur or not m or not frames or 'out of memory' in m.group(0) and False:
                    errs.append('driver died (%s): %s' % (p.returncode, err[-1500:]))
                    return
                cid = int(cur[-1])
                results[cid] = {'id': cid, 'crash': m.group(0) + '\n' + err[m.start():][:3000]}
                crashes += 1
                todo = [c for c in todo if c['id'] not in results]
                if crashes > 3:
                    return

        ts = [threading.Thread(target=work, args=(cases[i::shards],)) for i in range(shards)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs and not any('crash' in r for r in results.values()):
            raise CheckError('; '.join(errs)[:4000])
        return results

    # ---- TLC -----------------------------------------------------------
    def classes_dir(self):
        with self.lock:
            if self.classes is None:
                d = os.path.join(self.scratch, 'classes')
                os.makedirs(d)
                r = subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', d] +
                                   [os.path.join(VERIF, 'spec/java', f) for f in os.listdir(VERIF + '/spec/java') if f.endswith('.java')],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise CheckError('javac: ' + r.stdout)
                self.classes = d
        return self.classes

    def tlc(self, module, cfg, env=None, args=(), timeout=600, workers='auto', heap='6g'):
        """Run TLC on spec/<module>.tla with the configuration text cfg."""
        cls = self.classes_dir()
        d = self.path('tlc')
        os.makedirs(d)
        for f in os.listdir(VERIF + '/spec'):
            if f.endswith('.tla'):
                os.symlink(os.path.join(VERIF, 'spec', f), os.path.join(d, f))
        with open(os.path.join(d, 'M.cfg'), 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + d, '-cp', cls + ':' + JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', 'M.cfg', *args, module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        out = r.stdout
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        gen, dist = (int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))) if m else (0, 0)
        return r.returncode, out, gen, dist

    def model(self, module, cfg, name=None, timeout=600, args=('-deadlock',), **kw):
        """Exhaustive model check; a violation here is a defect of the specification, so an error.
        Checks vacuity: every action listed by coverage must have been taken."""
        rc, out, gen, dist = self.tlc(module, cfg, timeout=timeout, args=tuple(args) + ('-coverage', '1000'), **kw)
        if rc != 0 or 'No error has been found' not in out:
            raise CheckError('model %s: TLC exit %s\n%s' % (module, rc, out[-3000:]))
        never = []
        for m in re.finditer(r'^<(\w+) line \d+, col \d+ .*? of module (\w+)(?: \(.*\))?>: (\d+):(\d+)', out, re.M):
            if m.group(4) == '0':
                never.append(m.group(1))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append({'model': name or module, 'distinct_states': dist, 'states_generated': gen, 'actions_never_taken': sorted(set(never))})
        return out

    def validate(self, module, data, cfg_extra='', timeout=600, chunk=None, constants='', progress=None, heap='6g'):
        """Check the traces in data (dict with 'traces') against trace specification module.
        Returns None, or (index of a rejected trace, event index, TLC's last state)."""
        fn = self.path('traces.json')
        with open(fn, 'w') as f:
            json.dump(data, f)
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK TRUE\n' + constants + cfg_extra
        rc, out, gen, dist = self.tlc(module, cfg, env={'TRACES': fn}, timeout=timeout, heap=heap)
        os.unlink(fn)
        with self.lock:
            self.states += dist
            self.transitions += gen
        if rc == 0 and 'No error has been found' in out:
            nt = len(data['traces'])
            done = sum(len(t['ev']) + 1 for t in data['traces'])
            if dist < nt:
                raise CheckError('%s: %d states for %d traces' % (module, dist, nt))
            with self.lock:
                self.traces += nt
                self.events += done - nt
            return None
        if 'Deadlock reached' in out or re.search(r'Invariant \w+ is violated', out):
            ts = re.findall(r'^/\\ t = (\d+)', out, re.M)
            ls = re.findall(r'^/\\ l = (\d+)', out, re.M)
            if not ts:
                raise CheckError('%s: cannot locate the rejected trace\n%s' % (module, out[-3000:]))
            return int(ts[-1]) - 1, int(ls[-1]) - 1, out
        raise CheckError('%s: TLC exit %s\n%s' % (module, rc, out[:300] + '\n...\n' + out[-3000:]))


def enc(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    return ''.join(chr(c) if 32 <= c <= 126 and c != 37 else '%%%02X' % c for c in b)


CHARS = [enc(bytes([i])) for i in range(256)]
