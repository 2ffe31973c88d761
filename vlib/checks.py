"""The check of each property."""
import os, random, re
from concurrent.futures import ThreadPoolExecutor
from infra import *
import web, web_props as wp

ASSUMPTIONS = {}
CHECKS = {}


def check(p):
    def reg(f):
        CHECKS[p] = f
        return f
    return reg


def parallel(*fs):
    with ThreadPoolExecutor(len(fs)) as ex:
        futs = [ex.submit(f) for f in fs]
        err = None
        out = []
        for f in futs:
            try:
                out.append(f.result())
            except Exception as e:
                err = err or e
        if err:
            raise err
        return out


def seeds(ctx, n, salt):
    return [random.Random('%d/%s/%s/%d' % (ctx.seed, ctx.prop, salt, i)) for i in range(n)]


SB_MC = '''SPECIFICATION Spec
CONSTANTS MaxOps=%d MaxLines=%d Emit=FALSE AllRows=FALSE
INVARIANTS RecordsExact Outcomes
PROPERTY Monotone
CHECK_DEADLOCK FALSE
'''
SB_SIM = '''SPECIFICATION Spec
CONSTANTS MaxOps=%d MaxLines=%d Emit=TRUE AllRows=TRUE
INVARIANTS RecordsExact Outcomes Emitted
CHECK_DEADLOCK FALSE
'''


def starbow_model(ctx):
    for a, b in ctx.budget([(2, 1)], [(3, 1), (1, 2)]):
        ctx.model('StarbowMC', SB_MC % (a, b), 'StarbowMC %d requests of up to %d lines' % (a, b), args=(), timeout=800)


def simulated(ctx, num, ops=5, lines=3):
    """Histories TLC's simulator takes from StarbowMC, as web histories with queries after every request."""
    import json
    rc, out, gen, dist = ctx.tlc('StarbowMC', SB_SIM % (ops, lines), workers=1,
                                 args=('-simulate', 'num=%d' % num, '-depth', str(ops + 2), '-seed', str(ctx.seed)))
    if rc != 0:
        raise CheckError('simulation: ' + out[-2000:])
    hs = []
    for m in re.finditer(r'^"?HIST (\[.*\])"?$', out, re.M):
        hist = json.loads(m.group(1).replace('\\"', '"'))
        rng = random.Random(len(hs) + ctx.seed)
        u = ('uniquecount', 6)
        h = web.Hist([web.schema('A', [b'a'], ['count'], [(b'x', ['sum', 'max', 'min', 'mean', 'var'])]),
                      web.schema('B', [b'a', b'b'], ['count'], [(b'y', [('uniquecount', 10)]), (b'x', ['max'])]),
                      web.schema('C', [], [], [(b'y', ['sum', u])])], kind='simulated')
        for req in hist:
            lines = []
            for ln in req['lines']:
                if ln['ok']:
                    row = [(x['f'].encode(), x['v'].encode()) for x in ln['row']]
                    lines.append((web.line(row, rng), row))
                else:
                    lines.append((rng.choice([b'', b'x', b'|a=1']), None))
            m2 = web.media(rng)
            if not lines:
                m2 = {'ct': 'text/plain', 'ctc': 'plain'}
            m2['final'] = True
            h.obs(lines, **m2)
            for i, crits in enumerate([[[(b'a', b'1')], [(b'a', b'2')]], [[(b'a', b'1'), (b'b', b'1')], [(b'b', b'1'), (b'a', b'2')]], [[(b'z', b'z')]]]):
                for c in crits:
                    h.query_all(i, c, rng)
        hs.append(h)
    if not hs:
        raise CheckError('simulation printed no histories')
    ctx.notes.append('%d histories generated by TLC -simulate from StarbowMC and replayed on the server' % len(hs))
    return hs


def webcheck(prop, gens, ms, sim=True):
    """gens: function from ctx to histories."""
    def run(ctx):
        box = {}

        def drive():
            parallel(lambda: box.setdefault('bin', ctx.build('web', ('wk',))), lambda: ctx.classes_dir())
            hists = gens(ctx)
            if sim:
                hists += simulated(ctx, ctx.budget(30, 300))
            for i in range(0, len(hists), 400):
                web.execute(ctx, box['bin'], hists[i:i + 400], ms)
        parallel(drive, lambda: starbow_model(ctx))
    CHECKS[prop] = run


webcheck('C01', lambda ctx: [wp.c01(r, r.randint(4, 14)) for r in seeds(ctx, ctx.budget(160, 3000), 'a')] +
         [wp.c01_many(r, ctx.budget((256, 65536, (1 << 24) + 3), (256, 65536, (1 << 24) + 3, 40000000))) for r in seeds(ctx, 2, 'm')] + [wp.c01_every(r, 1 + i % 4) for i, r in enumerate(seeds(ctx, ctx.budget(8, 60), 'c'))] +
         [wp.c01_long(r, ctx.budget(400, 2000)) for r in seeds(ctx, ctx.budget(6, 60), 'b')], web.PRECISE)

webcheck('C03', lambda ctx: [wp.c03_spread(r, p, ctx.budget(20000, 60000), 5) for r, p in zip(seeds(ctx, 100, 'spread'), ctx.budget((18, 17), (14, 15, 16, 17, 18, 18)))] + [wp.c03_pairs(r) for r in seeds(ctx, ctx.budget(3, 20), 'p')] + [wp.c03(r, r.randint(3, 8)) for r in seeds(ctx, ctx.budget(50, 400), 'a')] +
         [wp.c03_bulk(r, p, n, records=3 if n <= 3000 else 2)
          for r, (p, n) in zip(seeds(ctx, 1000, 'b'), [(p, n) for p in range(4, 19) for n in ctx.budget((1, 12, 150, 2000 if p < 15 else 900),
                                                                                               (1, 2, 5, 40, 150, 700, 2000, 8000, 20000, 60000))])],
         web.UNIQ + ['count'], sim=False)
webcheck('C08', lambda ctx: [wp.c08(r, r.randint(6, 16)) for r in seeds(ctx, ctx.budget(150, 2500), 'a')], web.PRECISE + web.UNIQ)
webcheck('C09', lambda ctx: [wp.c09(r, r.randint(2, 8)) for r in seeds(ctx, ctx.budget(160, 1500), 'a')] +
         [wp.c09_bulk(r, ctx.budget(36000000, 150000000)) for r in seeds(ctx, ctx.budget(2, 4), 'bulk')] +
         [wp.c09_bulk(r, 300000000, 60000) for r in seeds(ctx, 1, 'long lines')] +
         [wp.c09_big(r, ctx.budget(1500000, 4000000)) for r in seeds(ctx, ctx.budget(3, 20), 'b')], web.PRECISE + web.UNIQ)
webcheck('C10', lambda ctx: [wp.c10_names(r, r.randint(3, 8)) for r in seeds(ctx, ctx.budget(12, 100), 'names')] + [wp.c10(r, r.randint(5, 20)) for r in seeds(ctx, ctx.budget(150, 2500), 'a')], web.PRECISE + web.UNIQ, sim=False)
webcheck('C11', lambda ctx: [wp.c11(r, r.randint(8, 25)) for r in seeds(ctx, ctx.budget(150, 2500), 'a')], web.PRECISE + web.UNIQ, sim=False)
webcheck('C12', lambda ctx: [wp.c12_many(r, n) for r, n in zip(seeds(ctx, 9, 'many'), ctx.budget((40, 140, 600), (40, 70, 140, 300, 600, 1100)))] + [wp.c12(r, r.randint(20, 50)) for r in seeds(ctx, ctx.budget(120, 1500), 'a')], web.PRECISE, sim=False)
webcheck('C13', lambda ctx: [wp.c13(r, r.randint(4, 14)) for r in seeds(ctx, ctx.budget(100, 1200), 'a')], web.PRECISE + web.UNIQ, sim=False)
webcheck('C14', lambda ctx: [wp.c14(r, r.randint(2, 14)) for r in seeds(ctx, ctx.budget(150, 2500), 'a')], web.PRECISE + web.UNIQ, sim=False)
webcheck('C23', lambda ctx: [wp.c23(r, r.randint(4, 14)) for r in seeds(ctx, ctx.budget(200, 3000), 'a')], web.PRECISE, sim=False)


def known_findings(prop):
    out = {}
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def c02(ctx):
    def drive():
        _, binary = parallel(ctx.classes_dir, lambda: ctx.build('web', ('wk',)))
        # keys that share a record among a great many that should not
        n = ctx.budget(300000, 1500000)
        for i, fam in enumerate(['', 'x-'] if ctx.quick else ['', 'x-', '2020-', 'q' * 40]):
            s = web.schema('a', [b'k'], ['count'], slots=2 * n + 1)
            r = ctx.run_cases(binary, [{'id': 0, 'Stores': [s], 'Ops': [{'Op': 'search', 'I': 0, 'F': 'k', 'Fam': fam, 'Hi': n}]}], timeout=300)[0]['results'][0]
            if r['lines']:
                web.execute(ctx, binary, [wp.c02_found([(web.dec(x['m']), web.dec(x['f'])) for x in r['lines']])], web.PRECISE)
            ctx.notes.append('search for conflated keys among %d: %d candidates%s' % (n, len(r['lines']), '' if r['tail'] else ', most keys refused'))
        hists = [wp.c02_hashes(r) for r in seeds(ctx, 1, 'h')] + [wp.c02_pairs(r) for r in seeds(ctx, ctx.budget(4, 30), 'p')] + [wp.c02(r, r.randint(4, 14)) for r in seeds(ctx, ctx.budget(160, 2500), 'a')] + simulated(ctx, ctx.budget(30, 300))
        for i in range(0, len(hists), 400):
            web.execute(ctx, binary, hists[i:i + 400], web.PRECISE)
        # the known finding: rejected by the specification of what should be, accepted by the one of what is
        try:
            web.execute(ctx, binary, [wp.c02_known(False)], web.PRECISE)
        except Violation:
            known = known_findings('C02')
            if 'conflated-key-tuples' not in known:
                raise
            web.execute(ctx, binary, [wp.c02_known(True)], web.PRECISE)
            ctx.known.append('conflated-key-tuples: ' + known['conflated-key-tuples'])
    parallel(drive, lambda: starbow_model(ctx))


CHECKS['C02'] = c02


def demo_hists(ctx):
    import demo
    hs = []
    rows = demo.airports()
    pairs = {'country': [(b'count', b'*')] + [(m, b'height') for m in (b'mean', b'sum', b'var', b'max', b'min')] + [(b'uniquecount', b'iata')],
             'tz': [(b'count', b'*'), (b'uniquecount', b'country'), (b'uniquecount', b'height')]}
    for n, rng in enumerate(seeds(ctx, ctx.budget(4, 20), 'demo')):
        h = demo.demo_hist('airports' if n % 2 == 0 else 'crowd' if n % 4 == 1 else 'synthetic')
        pool = rng.sample(rows, 600) if n % 2 == 0 and len(rows) > 600 else []
        if n == 0:
            pool = rng.sample(rows, len(rows))      # every airport there is
        if not pool:
            for i in range(300):
                r = [(b'name', b'n%d' % i), (b'country', rng.choice([b'France', b'Spain', b'C\xc3\xb4te', b'x'])), (b'iata', b'A%d' % rng.randint(0, 90)),
                     (b'height', web.number and wp.numtext(rng, rng.choice(['int', 'float', 'mixed', 'nan']))), (b'tz', rng.choice([b'Europe/Paris', b'UTC', b'x']))]
                r = [x for x in r if rng.random() < .85]
                rng.shuffle(r)
                if rng.random() < .05:
                    r = [(b'country', b'x'), (b'height', b'high')]
                if rng.random() < .03:
                    r = [(b'country', b'S7HVKAWiVzfc'), (b'height', b'%d' % i)]      # its hash is 0
                pool.append((web.line(r, rng, b'|\t;'), r))
        if n % 4 == 3:                  # more countries and zones than there are on this earth
            for i in range(900):
                c, z = [bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz') for _ in range(6)) + x for x in (b'-land', b'/zone')]
                r = [(b'country', c), (b'tz', z), (b'height', b'%d' % i), (b'iata', b'A%d' % (i % 7))]
                pool.append((web.line(r, rng, b'|\t;'), r))
        i = 0
        while i < len(pool):
            k = rng.choice([1, 1, 5, 60]) if n % 4 in (1, 2) else 150
            part = pool[i:i + k]
            i += k
            h.obs([(t, r) for t, r in part], **web.media(rng))
            if rng.random() < .5:
                t, r = rng.choice(pool)
                d = dict(r)
                for name in ('country', 'tz'):
                    v = d.get(name.encode())
                    if v and b"'" not in v and not v.startswith(b' '):
                        sel = pairs[name][:]
                        rng.shuffle(sel)
                        if rng.random() < .3:
                            sel.append((b'sum', b'nope'))
                        h.query(name, sel, [(name.encode(), v)], rng)
        for _ in range(2):                  # long queries
            t, r = rng.choice(pool)
            v = dict(r).get(b'tz')
            if v and b"'" not in v and not v.startswith(b' '):
                sel = pairs['tz'] + [(b'mean', b'field%d' % i) for i in range(300)]
                rng.shuffle(sel)
                h.query('tz', sel, [(b'x%d' % i, b'%d' % i * 30) for i in range(200)] + [(b'tz', v)], rng)
        if n < 2 or n % 4 == 3:
            for name in ('country', 'tz'):
                for v in sorted({dict(r).get(name.encode(), b'') for _, r in pool}):
                    if v and b"'" not in v and not v.startswith(b' '):
                        h.query(name, pairs[name], [(name.encode(), v)], rng)
        if n == 2:
            r = [(b'country', b'Utopia'), (b'tz', b'Nowhere/Never'), (b'height', b'7'), (b'iata', b'UTO'), (b'name', b'x' * 150)]
            h.bulk(r, 100000, rng)
            for name in ('country', 'tz'):
                h.query(name, pairs[name], [(name.encode(), dict(r)[name.encode()])], rng)
        for o in h.ops:
            o['Wire'] = True
        hs.append(h)
        if rng.random() < .5:
            h.query(b'nope', [(b'count', b'*')], [(b'tz', b'x')], rng)
    return hs


def c24(ctx):
    import demo
    import subprocess

    def build():
        out = os.path.join(ctx.scratch, 'starbow')
        r = subprocess.run(['go', 'build', '-buildvcs=false', '-o', out, '.'], cwd=REPO, env=go_env(ctx.scratch), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError('go build: ' + r.stdout[-3000:])
        return out

    def drive():
        _, binary = parallel(ctx.classes_dir, build)
        demo.run(ctx, binary, demo_hists(ctx), ctx.budget(200, 2000))
    parallel(drive, lambda: starbow_model(ctx))


CHECKS['C24'] = c24


# ---- summaries ---------------------------------------------------------
import sums


def sumscheck(prop, gen, models):
    """gen: ctx -> cases; models: list of (module, cfg) for the quick and additionally the thorough tier."""
    def run(ctx):
        def drive():
            box = {}
            parallel(lambda: box.setdefault('bin', ctx.build('sums', ())), ctx.classes_dir)
            sums.run_all(ctx, box['bin'], gen(ctx))

        def model():
            for tier, module, cfg, name in models:
                if tier == 'quick' or not ctx.quick:
                    ctx.model(module, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + cfg + '\n', name, args=(), timeout=800)
        parallel(drive, model)
    CHECKS[prop] = run


BB = 'CONSTANTS Ws={%s} Ns={%s} MaxOps=0 Emit=FALSE Full=%d\nINVARIANTS Packed Agree Counted RoundTrip\nPROPERTY Independent'
W8 = '1,2,3,4,5,6,7,8'
BB_MODELS = [('quick', 'BitBucketMC', BB % (W8, '0,1,2,3', 2), 'BitBucketMC widths 1-8, up to 3 buckets'),
             ('quick', 'BitBucketMC', BB % (W8, '4', 2), 'BitBucketMC widths 1-8, 4 buckets'),
             ('thorough', 'BitBucketMC', BB % ('1,2,3', '1,2,5', 3), 'BitBucketMC widths 1-3, all values, 5 buckets')]
BLOOM = 'CONSTANTS M=%d K=2 Items={"x","y"%s}\nINVARIANTS NoFalseNegatives EmptyHasNothing ExactlyTheProbed\nPROPERTY OnlyGrows'
HLL = 'CONSTANTS M=%d MaxRank=%d Items={"x","y","z"}\nINVARIANT SetDetermined\nPROPERTIES OneGrows AgainNothing'


def c18_cases(ctx):
    out = []
    for kind, a, b in (('bb', ctx.budget(120, 1500), ctx.budget(12, 120)), ('bloom', ctx.budget(70, 900), ctx.budget(10, 80)),
                       ('hll', ctx.budget(60, 700), ctx.budget(6, 40))):
        out += [sums.c18(r, kind) for r in seeds(ctx, a, kind)] + [sums.c18_bad(r, kind) for r in seeds(ctx, b, kind + 'bad')]
    return out


sumscheck('C17', lambda ctx: [sums.c17(r, w=1 + i % 8) for i, r in enumerate(seeds(ctx, ctx.budget(240, 4000), 'a'))] +
          [sums.c17_large(r, w, n + r.randint(0, 9)) for r, w, n in zip(seeds(ctx, 99, 'l'), ctx.budget((8, 6, 1, 5), (8, 7, 6, 5, 4, 3, 2, 1, 8)),
                                                                         ctx.budget((5 << 20, 3 << 20, 40 << 20, 1 << 17), (70 << 20, 5 << 20, 50 << 20, 9 << 20, 3 << 20, 6 << 20, 12 << 20, 80 << 20, 1 << 17)))] +
          sums.simulated_bb(ctx, ctx.budget(80, 1000)), BB_MODELS)
sumscheck('C18', c18_cases, BB_MODELS)
sumscheck('C19', lambda ctx: [sums.c19(r) for r in seeds(ctx, ctx.budget(120, 1500), 'a')] +
          [sums.c19_stat(r, n, pr, ctx.budget(8, 20), ctx.budget(3000, 10000))
           for r, (n, pr) in zip(seeds(ctx, 99, 'stat'), [(n, pr) for n in ctx.budget((100, 1000, 3000), (100, 300, 1000, 3000, 10000, 30000))
                                                          for pr in sums.RATES])] +
          [sums.c19_stat(r, 20000, pr, ctx.budget(4, 10), 3000000) for r, pr in zip(seeds(ctx, 9, 'rare'), (1e-4, 1e-5, 1e-5))],
          [('quick', 'Bloom', BLOOM % (5, ''), 'Bloom 5 bits'), ('thorough', 'Bloom', BLOOM % (5, ',"z"'), 'Bloom 5 bits, 3 items')])
sumscheck('C20', lambda ctx: [sums.c20(r) for r in seeds(ctx, ctx.budget(120, 1500), 'a')] +
          [sums.c20_stat(r, p, ctx.budget((1, 2, 5, 2**p // 10 + 1, 2**p // 3 + 1, 2**p // 2, 2**p, 2 * 2**p, 3 * 2**p, 5 * 2**p, 10 * 2**p), (1, 2, 3, 10, 2**p // 10 + 1, 2**p // 3, 2**p // 2, 2**p, 2 * 2**p, 3 * 2**p, 5 * 2**p, 10 * 2**p, 40 * 2**p if p < 14 else 7)),
                         ctx.budget(20 if p < 10 else 6 if p < 13 else 2, 60 if p < 10 else 20 if p < 14 else 5))
           for r, p in zip(seeds(ctx, 15, 'stat'), range(4, 19))] +
          [sums.c20_stat(r, p, [n], 1) for r, (p, n) in zip(seeds(ctx, 99, 'huge'), ctx.budget([(4, 3000000), (4, 12000000), (4, 10000000), (4, 11000000), (5, 12000000)],
                                                                                            [(4 + i % 4, 10**7 + 10**5 * i) for i in range(24)]))],
          [('quick', 'Hll', HLL % (4, 2), 'Hll 4 registers'), ('thorough', 'Hll', HLL % (4, 3), 'Hll 4 registers, ranks to 3')])
sumscheck('C21', lambda ctx: [sums.c21(r, r.choice([1, 2, 3, 5, 10, 30])) for r in seeds(ctx, ctx.budget(200, 2500), 'a')] +
          [sums.c21(r, ctx.budget(400, 3000)) for r in seeds(ctx, ctx.budget(6, 40), 'b')] +
          [sums.c21(r, r.choice([600, 1100, 2100, 4200]), True) for r in seeds(ctx, ctx.budget(6, 30), 'c')],
          [('quick', 'Stat64MC', 'CONSTANT MaxN=5\nINVARIANTS Exactly Judged', 'Stat64MC series of up to 5 numbers'),
           ('thorough', 'Stat64MC', 'CONSTANT MaxN=9\nINVARIANTS Exactly Judged', 'Stat64MC series of up to 9 numbers')])
sumscheck('C22', lambda ctx: [sums.c22(r) for r in seeds(ctx, ctx.budget(300, 4000), 'a')],
          [('quick', 'FnvMC', 'CONSTANTS MaxLen=5 Alphabet={0,1,97,255}\nINVARIANTS Whole Limbs Distinct', 'FnvMC texts of up to 5 bytes'),
           ('thorough', 'FnvMC', 'CONSTANTS MaxLen=8 Alphabet={0,97,255}\nINVARIANTS Whole Limbs Distinct', 'FnvMC texts of up to 8 bytes')])


# ---- concurrent structures -------------------------------------------------
import conc

MAPS = ('internal/bufmap', 'internal/incmap', 'internal/seqlock')


def models(ctx, module, cfg, quick, thorough, wrong):
    """quick, thorough: (parameters, name); wrong: parameters under which the model must fail."""
    for params, name in quick + ([] if ctx.quick else thorough):
        ctx.model(module, cfg % params, '%s %s' % (module, name), args=(), timeout=800)
    for params, name in wrong if not ctx.quick else wrong[ctx.seed % len(wrong):][:1]:
        rc, out, _, _ = ctx.tlc(module, cfg % params)
        if not re.search('is violated|Deadlock reached', out):
            raise CheckError('model %s does not notice the mistake %r: exit %d' % (module, name, rc))
        ctx.notes.append('model %s with the deliberate mistake "%s" is rejected, as it must be' % (module, name))


def procs(n):
    return ','.join(str(i + 1) for i in range(n))


BUF_MC = '''SPECIFICATION FairSpec
CONSTANTS Procs={%s} Size=2 Hops=2 Variant="%s" Emit=FALSE Family="%s"
CONSTANT Programs <- MCPrograms
INVARIANTS Linearizable OneSlot Warned Locked EndOk
PROPERTIES SlotsKept Finishes
'''
INC_MC = '''SPECIFICATION FairSpec
CONSTANTS Procs={%s} Size=2 Hops=2 Variant="%s" Emit=FALSE Family="%s"
INVARIANTS Linearizable OneSlot EndOk
PROPERTIES SlotsKept TotalsGrow Finishes
'''
SEQ_MC = '''SPECIFICATION FairSpec
CONSTANTS Procs={%s} Variant="%s" Emit=FALSE Family="%s"
INVARIANTS Linearizable Warned Locked
PROPERTY Finishes
'''


def fam(*names):
    return [((procs(n), 'none', f), '%s, %d processes' % (f, n)) for f, n in names]


def mistakes(*pairs):
    return [((procs(3), v, f), v) for v, f in pairs]


def conccheck(prop, what, module, cfg, quick, thorough, wrong, gen):
    def run(ctx):
        def drive():
            box = {}
            parallel(lambda: box.setdefault('bins', conc.binaries(ctx, 'maps', MAPS)), ctx.classes_dir)
            conc.run(ctx, *box['bins'], gen(ctx))
        parallel(drive, lambda: models(ctx, module, cfg, quick, thorough, wrong))
    CHECKS[prop] = run


def stress(ctx, make, n, runs, salt):
    """Real parallelism."""
    return [make(r, ctx, [conc.free(runs)]) for r in seeds(ctx, n, salt)]


def explored(ctx, make, n, salt):
    out = []
    for r in seeds(ctx, n, salt):
        k = ctx.budget(1, 4)
        c = make(r, ctx, [conc.dfs(1, 600 * k, True), conc.pct(4, 120 * k, r.randrange(1 << 30)), conc.pct(3, 60 * k, r.randrange(1 << 30), True),
                          conc.rand(.2, 40 * k, r.randrange(1 << 30))])
        c['ms'] = ctx.budget(1200, 6000)
        out.append(c)
    return out


def c06_cases(ctx):
    return (conc.narrow(ctx, random.Random(ctx.seed), 'bufmap') + conc.fixed_store(ctx, random.Random(ctx.seed)) + conc.held_up(ctx, random.Random(ctx.seed), 'bufmap') + conc.scheduled(ctx, 'bufmap', ctx.budget(100, 1000)) +
            explored(ctx, conc.some_store, ctx.budget(50, 800), 'x') + stress(ctx, conc.some_store, ctx.budget(20, 200), 100, 'free'))


def c07_cases(ctx):
    out = [conc.seq_store(r, r.randint(0, 25)) for r in seeds(ctx, ctx.budget(700, 8000), 'a')]
    out += [conc.seq_large(r) for r in seeds(ctx, ctx.budget(30, 300), 'large')]
    out += [conc.seq_huge(r) for r in seeds(ctx, ctx.budget(2, 6), 'huge')]
    full = [c for c in conc.fixed_store(ctx, random.Random(ctx.seed)) if 'collid' in c['kind'] or 'last' in c['kind'] or c['kind'] == 'neighbours']
    full += [c for c in conc.held_up(ctx, random.Random(ctx.seed), 'bufmap') if 'claim' in c['kind']]
    return out + full + explored(ctx, conc.some_store, ctx.budget(15, 200), 'x')


def c15_cases(ctx):
    return ([conc.seq_counters(r, r.randint(0, 25)) for r in seeds(ctx, ctx.budget(500, 6000), 'a')] +
            [conc.seq_large_counters(r) for r in seeds(ctx, ctx.budget(30, 300), 'large')] +
            conc.fixed_counters(ctx, random.Random(ctx.seed)) + conc.held_up_counters(ctx, random.Random(ctx.seed)) + conc.scheduled(ctx, 'incmap', ctx.budget(100, 1000)) +
            explored(ctx, conc.some_counters, ctx.budget(50, 800), 'x') + stress(ctx, conc.some_counters, ctx.budget(20, 200), 100, 'free'))


def c16_cases(ctx):
    return (conc.narrow(ctx, random.Random(ctx.seed), 'seqlock') + conc.fixed_lock(ctx, random.Random(ctx.seed)) + conc.held_up(ctx, random.Random(ctx.seed), 'seqlock') + conc.scheduled(ctx, 'seqlock', ctx.budget(100, 1000)) +
            explored(ctx, conc.some_lock, ctx.budget(40, 600), 'x') + stress(ctx, conc.some_lock, ctx.budget(20, 200), 100, 'free'))


BUF_WRONG = mistakes(('blind claim', 'collide'), ('no recheck', 'create'), ('no mutex', 'create'), ('claimer initialises', 'create'), ('in place', 'fail'),
                     ('no sequence', 'read'), ('no flag', 'create'), ('odd accepted', 'read'), ('no second look', 'read'))
conccheck('C06', 'bufmap', 'BufMapMC', BUF_MC, fam(('create', 3), ('fail', 3), ('read', 3), ('collide', 3)), fam(('pairs', 2), ('full', 3), ('triples', 3)), BUF_WRONG, c06_cases)
conccheck('C07', 'bufmap', 'BufMapMC', BUF_MC, fam(('collide', 3), ('full', 3)), fam(('pairs', 2)), BUF_WRONG[:2], c07_cases)
conccheck('C15', 'incmap', 'IncMap', INC_MC, fam(('create', 3), ('collide', 3), ('full', 3), ('pairs', 2)), fam(('long pairs', 2)),
          mistakes(('blind claim', 'collide'), ('no recheck', 'create'), ('split add', 'create')), c15_cases)
conccheck('C16', 'seqlock', 'SeqLock', SEQ_MC, fam(('mixed', 3), ('updates', 3), ('puts', 3)), fam(('pairs', 2)),
          mistakes(('no mutex', 'mixed'), ('no sequence', 'mixed'), ('in place', 'mixed'), ('odd accepted', 'mixed'), ('no second look', 'mixed'), ('forgotten unlock', 'mixed')), c16_cases)


# ---- concurrent requests -----------------------------------------------------
import webconc


CONC_MC = '''SPECIFICATION FairSpec
CONSTANTS Procs={%s} Variant="%s" Emit=FALSE Family="%s"
INVARIANTS Consistent ExactlyOnce Apart
PROPERTIES Grow Finishes
'''


def webconc_cases(ctx, queries):
    k = ctx.budget(1, 5)
    out = webconc.fixed(ctx, random.Random(ctx.seed), queries) + webconc.scheduled(ctx, ctx.budget(60, 600), queries)
    for r in seeds(ctx, ctx.budget(60, 600), 'x'):
        out.append(webconc.some(r, queries, [conc.dfs(1, 500 * k, True), conc.pct(4, 400 * k, r.randrange(1 << 30)), conc.pct(3, 400 * k, r.randrange(1 << 30), True),
                                             conc.rand(.1, 150 * k, r.randrange(1 << 30))], ms=ctx.budget(2000, 8000)))
    for r in seeds(ctx, ctx.budget(30, 300), 'free'):
        out.append(webconc.some(r, queries, [conc.free(60)], wire=r.random() < .5, big=True))
    return out


def webconccheck(prop, queries):
    def run(ctx):
        def drive():
            box = {}
            parallel(lambda: box.setdefault('bins', conc.binaries(ctx, 'webconc', webconc.PKGS, ('wk',))), ctx.classes_dir)
            webconc.run(ctx, *box['bins'], webconc_cases(ctx, queries))
        parallel(drive, lambda: models(ctx, 'StarbowConc', CONC_MC, fam(('create', 3), ('batch', 3), ('routes', 3), ('rejects', 3)), fam(('pairs', 2)),
                                       mistakes(('split write', 'create'), ('torn read', 'create'), ('early answer', 'batch'), ('shared line', 'batch'),
                                                ('cached read', 'create'))))
    CHECKS[prop] = run


webconccheck('C04', False)
webconccheck('C05', True)
