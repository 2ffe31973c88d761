"""The summary packages: sequences of calls, run on the real code and checked by TLC against SumsTrace."""
import json, math, random, re
from infra import *
import web_props

FIELDS = {'e': 'E', 'o': 'O', 'kind': 'Kind', 'n': 'N', 'm': 'M', 'w': 'W', 'k': 'K', 'p': 'P', 'pr': 'Pr', 'i': 'I', 'v': 'V', 'how': 'How',
          'reader': 'Reader', 'buf': 'Buf', 'bytes': 'Bytes', 'of': 'Of', 'cut': 'Cut', 'patch': 'Patch', 'extra': 'Extra', 'lim': 'Lim', 'x': 'X',
          'vs': 'Vs', 'multi': 'Multi', 'a': 'A', 'call': 'Call', 'pre': 'Pre', 'room': 'Room', 'items': 'Items', 'probes': 'Probes', 'family': 'Family',
          'seed': 'Seed', 'fault': 'Fault', 'faultat': 'FaultAt', 'repeat': 'Repeat'}
LOCAL = ('total', 'hsame', 'hrms')          # judgements of the specification that make no call
DROP = ('pr', 'patch', 'extra', 'cut', 'seed', 'faultat', 'reader', 'family', 'multi', 'call', 'repeat', 'err')


class Case:
    def __init__(self, kind=''):
        self.kind, self.ops = kind, []
        self.kinds = {}

    def op(self, e, o='', **kw):
        if e in ('new', 'read'):
            self.kinds[o] = kw['kind']
        elif 'kind' not in kw and o in self.kinds:
            kw['kind'] = self.kinds[o]
        if e == 'reset' and 'kind' not in kw:
            raise CheckError('reset of unknown object')
        self.ops.append(dict(kw, e=e, o=o))


def execute(ctx, binary, cases, heap='6g'):
    inp = []
    for i, c in enumerate(cases):
        c.id = i
        inp.append({'id': i, 'Ops': [{FIELDS[k]: v for k, v in o.items() if k in FIELDS} for o in c.ops if o['e'] not in LOCAL]})
    res = ctx.run_cases(binary, inp)
    traces = []
    for c in cases:
        if c.id not in res:
            raise CheckError('no result for case %d' % c.id)
        r = res[c.id]
        it = iter(r.get('results', []))
        ev = []
        for o in c.ops:
            if o['e'] in LOCAL:
                ev.append(o)
                continue
            try:
                x = next(it)
            except StopIteration:
                if 'crash' not in r:
                    raise CheckError('lost result in case %d' % c.id)
                ev.append({'e': 'crash', 'msg': r['crash'][:300]})
                break
            if 'bad' in x:
                ev.append({'e': x['bad'], 'msg': str(x.get('msg'))[:300]})
                break
            e = {k: v for k, v in o.items() if k not in DROP}
            e.update({k: v for k, v in x.items() if k not in DROP})
            ev.append(e)
        c.ev = ev
        traces.append({'ev': ev})
    bad = ctx.validate('SumsTrace', {'traces': traces}, heap=heap)
    if not ctx.samples:
        for c in cases[:3]:
            ctx.samples.append({'kind': c.kind, 'events': [json.dumps(e)[:300] for e in c.ev[:6]]})
    if bad:
        t, l, out = bad
        c = cases[t]
        e = c.ev[l] if l < len(c.ev) else None
        raise Violation('case %d (%s): event %d is not a behaviour of the specification: %s' % (t, c.kind, l, json.dumps(e)[:1200]),
                        {'kind': c.kind, 'case': inp[t], 'rejected_event': l, 'event': e, 'before': c.ev[max(0, l - 12):l], 'tlc': out[-2500:]})


def run_all(ctx, binary, cases, group=400, heap='6g'):
    for i in range(0, len(cases), group):
        execute(ctx, binary, cases[i:i + group], heap)


# ---- C17 ---------------------------------------------------------------
def size(rng):
    return rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 23, 31, 33, rng.randint(1, 60)])


def value(rng, w):
    m = 2 ** w - 1
    return rng.choice([0, 1, m, m, max(m - 1, 0), m // 2, 255, 254, min(m + 1, 255), rng.randint(0, 255), rng.randint(0, m)])


def where(rng, n, last=[0]):
    k = rng.random()
    if k < .25:
        return n - 1
    if k < .35:
        return 0
    if k < .6:
        last[0] = min(max(last[0] + rng.choice([-1, 1]), 0), n - 1)
    elif k < .9:
        last[0] = rng.randrange(n)
    else:
        last[0] = min(last[0], n - 1)
    return last[0]


def c17(rng, w=None, n=None, ops=60, script=None):
    w = w or rng.randint(1, 8)
    n = n or size(rng)
    c = Case('bitbucket w=%d n=%d' % (w, n))
    names = ['b']
    c.op('new', 'b', kind='bb', n=n, w=w)
    if script is None:
        script = []
        for _ in range(ops):
            k = rng.random()
            op = 'set' if k < .45 else 'incn' if k < .9 else 'countn' if k < .97 else 'reset' if k < .985 else 'info'
            script.append((op, where(rng, n), value(rng, w)))
    for op, i, v in script:
        b = rng.choice(names)
        if op in ('set', 'incn'):
            c.op(op, b, i=i, v=v)
            if rng.random() < .35:
                c.op('get', b, i=rng.choice([i, i, max(0, i - 1), min(n - 1, i + 1)]))
            if n <= 40 and rng.random() < .5 or rng.random() < .1:
                c.op('dump', b)
        elif op == 'countn':
            c.op(op, b, v=rng.choice([0, v]))
        else:
            c.op(op, b)
            c.op('dump', b)
    for v in {0, 1, 2 ** w - 1, value(rng, w), value(rng, w)}:
        c.op('countn', 'b', v=v)
    c.op('dump', 'b')
    c.op('info', 'b')
    return c


def c17_large(rng, w, n):
    """A bit bucket of many megabytes, of which few buckets are used: those whose numbers differ in one high bit."""
    c = Case('large bitbucket w=%d n=%d' % (w, n))
    c.op('new', 'b', kind='bb', n=n, w=w)
    base = [0, rng.randrange(256), n - 1, rng.randrange(n)]
    at = {x ^ (1 << j) for x in base for j in range(28)} | set(base) | {x ^ 1 << j ^ 1 << j + 1 for x in base for j in range(7, 28)}
    # and those whose first bit, or byte, is that far from the first
    at |= {((x * w) ^ (1 << j)) // w for x in base for j in range(31)}
    at = [x for x in at if 0 <= x < n]
    rng.shuffle(at)
    for i in at:
        c.op(rng.choice(['set', 'incn']), 'b', i=i, v=value(rng, w))
        for j in rng.sample(at, 3) + [i]:
            c.op('get', 'b', i=j)
    for i in at:
        c.op('get', 'b', i=i)
    for v in {0, 1, 2 ** w - 1}:
        c.op('countn', 'b', v=v)
    c.op('info', 'b')
    c.op('reset', 'b')
    for i in at[:30]:
        c.op('get', 'b', i=i)
    c.op('countn', 'b', v=0)
    return c


def simulated_bb(ctx, num, ops=25):
    """Operation sequences TLC's simulator takes from BitBucketMC."""
    cfg = ('SPECIFICATION Spec\nCONSTANTS Ws={1,2,3,4,5,6,7,8} Ns={1,2,3,5,8,11} MaxOps=%d Emit=TRUE Full=8\n'
           'INVARIANTS Packed Agree Emitted\nCHECK_DEADLOCK FALSE\n' % ops)
    rc, out, gen, dist = ctx.tlc('BitBucketMC', cfg, workers=1, args=('-simulate', 'num=%d' % num, '-depth', str(ops + 3), '-seed', str(ctx.seed)))
    if rc:
        raise CheckError('simulation: ' + out[-2000:])
    cs = []
    for i, m in enumerate(re.finditer(r'^"?HIST (\{.*\})"?$', out, re.M)):
        h = json.loads(m.group(1).replace('\\"', '"'))
        rng = random.Random(ctx.seed * 1000 + i)
        cs.append(c17(rng, h['w'], h['n'], script=[(o['op'], o['i'], o['v']) for o in h['ops']]))
        cs[-1].kind += ' simulated'
    if not cs:
        raise CheckError('simulation printed no histories')
    ctx.notes.append('%d operation sequences generated by TLC -simulate from BitBucketMC and replayed' % len(cs))
    return cs


# ---- C18 ---------------------------------------------------------------
READERS = ['all', 'one', 'half', 'rand', 'eof', 'randeof', 'zero']


# texts whose hash is 0, by FNV-1 and FNV-1a
ZERO_HASH = [bytes([0x92, 0x06, 0x77, 0x4c, 0xe0, 0x2f, 0x89, 0x2a, 0xd2]), bytes([0xd5, 0x6b, 0xb9, 0x53, 0x42, 0x87, 0x08, 0x36])]


def item(rng, pool=None):
    if pool and rng.random() < .5:
        return rng.choice(pool)
    k = rng.random()
    if k < .05:
        b = rng.choice([b'', b'', *ZERO_HASH])
    elif k < .3:
        b = bytes([rng.randrange(256)]) if k < .15 else str(rng.randint(0, 99)).encode()
    elif k < .6:
        b = b'item-%d' % rng.randint(0, 10**6)
    elif k < .8:
        b = rng.choice([b'user', b'session', b'a' * 40]) + b'%d' % rng.randint(0, 300)
    else:
        b = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 8, 20])))
    s = enc(b)
    if pool is not None:
        pool.append(s)
    return s


def fresh(c, rng, o, kind, small=False):
    """A new object, returning the length of its body."""
    if kind == 'bb':
        w, n = rng.randint(1, 8), size(rng)
        if small:
            n = min(n, 10)
        c.op('new', o, kind='bb', n=n, w=w)
        return dict(n=n, w=w)
    if kind == 'bloom':
        if rng.random() < .5:
            m = rng.choice([2, 3, 8, 9, 16, 17, 31, 64, 100, 101])
            c.op('new', o, kind='bloom', m=m, k=rng.choice([1, 1, 2, 3, 7, 12, 255]))
        else:
            n, pr = rng.choice([(3, .1), (5, .05), (10, .01), (1, .3), (7, .5), (1, .9), (5, .99), (2, 1e-9), (1, 1e-30), (3, 1e-80), (2, 5e-324), (20, .001)])
            c.op('new', o, kind='bloom', n=n, pr=pr)
        return {}
    p = 4 if small else rng.choice([4, 4, 5, 6])
    c.op('new', o, kind='hll', p=p)
    return dict(p=p)


def mutate(c, rng, o, kind, par, pool):
    if kind == 'bb':
        c.op(rng.choice(['set', 'incn']), o, i=rng.randrange(par['n']), v=value(rng, par['w']))
    else:
        c.op('badd' if kind == 'bloom' else 'hadd', o, x=item(rng, pool))


def look(c, rng, o, kind, pool):
    if kind == 'bb':
        c.op('dump', o)
        c.op('info', o)
        c.op('countn', o, v=rng.choice([0, 1, 255]))
    elif kind == 'bloom':
        for x in rng.sample(pool, min(4, len(pool))) + [item(rng)]:
            c.op('has', o, x=x)
        c.op('bstat', o)
    else:
        c.op('hcount', o)
    if rng.random() < .5:
        c.op('write', o, lim=-1)


def c18(rng, kind):
    c = Case('serialized ' + kind)
    pool = []
    par = fresh(c, rng, 'a', kind)
    for _ in range(rng.choice([0, 1, 3, 8, 20])):
        mutate(c, rng, 'a', kind, par, pool)
    c.op('write', 'a', lim=-1)
    c.op('write', 'a', lim=rng.choice([0, 1, 2, 3, 9, 10, 11, 12, 13, 14, rng.randint(0, 40)]))
    live = ['a']
    other = fresh(c, rng, 'old', kind)          # an object with another configuration, to be overwritten
    if rng.random() < .5:
        mutate(c, rng, 'old', kind, other, pool)
    # good inputs
    n = 0
    for _ in range(rng.randint(2, 5)):
        n += 1
        src = rng.choice(live)
        dst = 'c%d' % n
        k = rng.random()
        if k < .5:
            dst = rng.choice([dst, dst, 'old'])
            c.op('read', dst, kind=kind, how='from', buf='', of=src, reader=rng.choice(READERS), seed=rng.randint(0, 10**6), fault=False)
        else:
            extra = [] if rng.random() < .6 else [rng.randrange(256) for _ in range(rng.randint(1, 5))]
            c.op('read', dst, kind=kind, how='with', buf='buf%d' % n, of=src, extra=extra, fault=False)
            if rng.random() < .3:
                c.op('read', dst + 'x', kind=kind, how='with', buf='buf%d' % n, of=dst, fault=False)
                live.append(dst + 'x')
        if dst not in live:
            live.append(dst)
        for o in (src, dst):
            look(c, rng, o, kind, pool)
        for _ in range(rng.randint(0, 4)):
            o = rng.choice(live)
            if rng.random() < .1:
                c.op('reset', o)
            else:
                mutate(c, rng, o, kind, par, pool)
            if rng.random() < .6:
                look(c, rng, rng.choice(live), kind, pool)
        for i in range(1, n + 1):
            if any(q['e'] == 'read' and q.get('buf') == 'buf%d' % i for q in c.ops):
                c.op('buf', 'c%d' % i, buf='buf%d' % i)
    for o in live:
        look(c, rng, o, kind, pool)
    c.op('write', 'old' if 'old' in live else 'a', lim=-1)
    return c


def c18_bad(rng, kind):
    """Every truncation, trailing data, wrong versions and widths, failing readers."""
    c = Case('bad input ' + kind)
    pool = []
    par = fresh(c, rng, 'a', kind, small=True)
    for _ in range(rng.choice([1, 4])):
        mutate(c, rng, 'a', kind, par, pool)
    h = 0 if kind == 'bb' else 2
    n = 0

    def bad(**kw):
        nonlocal n
        n += 1
        for how in ('with', 'from'):
            if how == 'with' and kw.get('fault'):
                continue
            if how == 'from' or not kw.get('extra'):
                c.op('read', 'z%d%s' % (n, how), kind=kind, how=how, buf='', of='a', reader=rng.choice(READERS), seed=rng.randint(0, 10**6),
                     **{'fault': False, **kw})
    L = {'bb': lambda: 10 + (par['n'] * par['w'] + 7) // 8, 'bloom': lambda: 45, 'hll': lambda: 24}[kind]()
    for cut in range(1, min(L, 45)):
        bad(cut=cut)
    for e in ([0], [1], [255, 0], [0] * 40):
        bad(extra=e)
        bad(extra=e)
    for v in (0, 2, 3, 17, 128, 255):
        bad(patch=[[0, v]])
        if h:
            bad(patch=[[h, v]])
    for w in (9, 10, 16, 64, 128, 255):
        bad(patch=[[h + 1, w]])
    for i in range(h + 2, h + 10):
        if i >= h + 5:
            bad(patch=[[i, rng.choice([1, 16, 128, 255])]])
    bad(patch=[[i, 255] for i in range(h + 2, h + 10)])
    bad(patch=[[h + 9, 0x20], [h + 1, 8]])
    for at in list(range(0, 20)) + [rng.randint(20, 60)]:
        bad(fault=True, faultat=at)
    return c


# ---- C19 ---------------------------------------------------------------
def c19(rng, ops=40):
    c = Case('bloom')
    pool = []
    kind = rng.random()
    fresh(c, rng, 'a', 'bloom')
    live = ['a']
    n = 0
    for _ in range(ops):
        o = rng.choice(live)
        k = rng.random()
        if k < .45:
            c.op('badd', o, x=item(rng, pool))
        elif k < .8:
            c.op('has', o, x=item(rng, pool) if rng.random() < .3 or not pool else rng.choice(pool))
        elif k < .88:
            c.op('bstat', o)
        elif k < .92:
            c.op('reset', o)
            for x in rng.sample(pool, min(len(pool), 3)):
                c.op('has', o, x=x)
            c.op('bstat', o)
        elif len(live) < 4:
            n += 1
            c.op('read', 'c%d' % n, kind='bloom', how=rng.choice(['from', 'with']), buf='', of=o, reader='all', fault=False)
            live.append('c%d' % n)
    for o in live:
        for x in dict.fromkeys(pool):
            c.op('has', o, x=x)
    return c


FAMILIES = ['dec', 'pad', 'ip', 'be', 'pre', 'mix']


def family(rng, items):
    """A family of items: one of the above, or items with a long text in common, when there are few enough of them."""
    if rng.random() < .6:
        return rng.choice(FAMILIES)
    return rng.choice(['tail', 'head', 'both']) + str(rng.choice([n for n in (20, 60, 130, 260, 520, 1030, 2100, 4200, 8200, 33000) if n * items < 3e7 or n == 20]))


RATES = [.5, .2, .1, .05, .02, .01, .003, .001]


def c19_stat(rng, n, pr, per, probes):
    """Filters sized for n items at rate pr, filled up to n items."""
    c = Case('bloom filters for %d items at %g' % (n, pr))
    for i in range(per):
        nn = n + i % 4
        items = nn if rng.random() < .75 else max(1, rng.randint(nn // 3, nn))
        c.op('bbatch', '', n=nn, pr=pr, items=items, family=next(f for f in iter(lambda: family(rng, items + probes), 0) if f != 'be'), seed=rng.randint(1, 10**6),
             probes=probes, repeat=rng.choice([0, items]))
    c.op('total', n=n, rate='%d/1000000' % round(pr * 1000000))
    return c


# ---- C20 ---------------------------------------------------------------
def c20(rng, ops=40, p=None):
    p = p or rng.choice([4, 4, 5, 6, 8, 10, 14, 18])
    c = Case('hyperloglog p=%d' % p)
    pool = []
    live = ['a', 'b']
    for o in live:
        c.op('new', o, kind='hll', p=p)
    n = 0
    items = [item(rng, pool) for _ in range(rng.choice([3, 10, 25]))]
    items = list(dict.fromkeys(items))
    for o in live:
        xs = items + [rng.choice(items) for _ in range(rng.randint(0, 10))]
        rng.shuffle(xs)
        for x in xs:
            c.op('hadd', o, x=x)
            if rng.random() < .15:
                c.op('hcount', o)
        c.op('hsame')
    for _ in range(ops):
        o = rng.choice(live)
        k = rng.random()
        if k < .6:
            c.op('hadd', o, x=rng.choice(items) if rng.random() < .5 else item(rng, pool))
        elif k < .8:
            c.op('hcount', o)
        elif k < .85:
            c.op('reset', o)
            c.op('hcount', o)
            c.op('hsame')
        elif len(live) < 4 and p < 12:
            n += 1
            c.op('read', 'c%d' % n, kind='hll', how=rng.choice(['from', 'with']), buf='', of=o, reader='all', fault=False)
            live.append('c%d' % n)
    c.op('hsame')
    if p <= 6:
        c.op('write', 'a', lim=-1)
    return c


def c20_stat(rng, p, ns, reps):
    c = Case('hyperloglog counts p=%d' % p)
    for n in ns:
        for _ in range(reps):
            c.op('hbatch', '', p=p, items=n, family=family(rng, n), seed=rng.randint(1, 10**6), repeat=rng.choice([0, min(n, 500)]))
    if sum(3 * n >= 2**p for n in ns) * reps >= 48:
        c.op('hrms', bound='5/2')
    return c


# ---- C21 ---------------------------------------------------------------
def series(rng, n):
    k = rng.randrange(11)
    if k == 9:
        among = rng.choice([['1e308', '4e307', '-1e308', '3.3e307', '1', '1e200'], ['4e307', '4.4e307', '1e307', '3.33e307']])
        return [rng.choice(among) for _ in range(n)]
    if k == 10:
        return [rng.choice(['1e-308', '5e-324', '-1e-310', '4e-309', '-2e-323', '0']) for _ in range(n)]
    if k == 0:
        return ['%d' % rng.randint(-9, 9) for _ in range(n)]
    if k == 1:
        base = rng.choice([10**9, 10**12, -10**9, 2**40])
        return ['%d' % (base + rng.choice([4, 7, 13, 16, rng.randint(-50, 50)])) for _ in range(n)]
    if k == 2:
        x = rng.choice(['0.1', '-7.3', '1e15', '0', '3', '1e-300', '123456789.123'])
        return [x] * n
    if k == 3:
        return ['%.17g' % (rng.choice([1, -1]) * 10 ** rng.uniform(-20, 20)) for _ in range(n)]
    if k == 4:
        return ['%.17g' % rng.gauss(0, 1) for _ in range(n)]
    if k == 5:
        big = rng.choice(['1e16', '-1e16', '1e100'])
        return [rng.choice([big, '1', '-1', big]) for _ in range(n)]
    if k == 6:
        return ['%d' % rng.choice([-1, 1]) for _ in range(n)]
    if k == 7:
        return ['%.17g' % (1 + i * 2**-50) for i in range(n)]
    return ['%.17g' % (rng.choice([1e8, 1e-8]) * rng.uniform(-1, 1)) for _ in range(n)]


def c21(rng, n, whole=False):
    c = Case('statistics of %d samples%s' % (n, ', in long pieces' if whole else ''))
    names = ['a', 'b']
    for i, o in enumerate(names):
        c.op('snew', o, buf='buf' if rng.random() < .5 else '', a=rng.random() < .5)
    for rnd in range(1 if whole else rng.randint(1, 3)):
        xs = series(rng, n)
        if whole:
            # first some others
            xs = series(rng, rng.choice([0, 1, 7, 300])) + xs
        if rng.random() < .06:
            xs.insert(rng.randrange(len(xs) + 1), rng.choice(['nan', 'inf', '-inf', '1e300']))
        for o in names:
            i = 0
            while i < len(xs):
                k = min(rng.choice([1, 10, len(xs), len(xs)] if whole else [0, 1, 1, 2, 3, 10, len(xs)]), len(xs) - i)
                c.op('supdate', o, vs=xs[i:i + k], multi=rng.random() < .5 or whole and k > 10)
                i += k
                if not whole and rng.random() < .25:
                    c.op('sread', o)
            c.op('sread', o)
            if rng.random() < .4:
                c.op('sreset', o, multi=rng.random() < .5)
                c.op('sread', o)
    return c


# ---- C22 ---------------------------------------------------------------
def length(rng):
    if rng.random() < .01:
        return rng.choice([1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12288, 16384, 20000, 32768, 65535, 65536, 65537, 70000])
    return rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 20, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, rng.randrange(1000)])


def octets(rng, n):
    k = rng.random()
    if k < .2:
        return [rng.randrange(128, 256) for _ in range(n)]
    if k < .3:
        return [rng.choice([0, 255])] * n
    if k < .4:
        return [rng.randrange(97, 122) for _ in range(n)]
    return [rng.choice([0, 255, 128, rng.randrange(256), rng.randrange(97, 122)]) for _ in range(n)]


def c22(rng, ops=25):
    c = Case('fnv')
    live = []
    for o, a in (('h', False), ('g', True)):
        c.op('fnew', o, a=a)
        live.append((o, a))
    for _ in range(ops):
        o, a = rng.choice(live)
        k = rng.random()
        if k < .04:
            c.op('freset', o, a=a)
            z = list(ZERO_HASH[a])
            c.op('fwrite', o, a=a, call=rng.choice(['write', 'string']), bytes=z)
            c.op('fsum', o, a=a)
            c.op('fhelp', '', bytes=z)
        elif k < .6:
            call = rng.choice(['write', 'string', 'byte', 'uint64'])
            n = 1 if call == 'byte' else 8 if call == 'uint64' else length(rng)
            c.op('fwrite', o, a=a, call=call, bytes=octets(rng, n))
        elif k < .75:
            c.op('fsum', o, a=a)
        elif k < .85:
            c.op('fappend', o, a=a, pre=octets(rng, rng.choice([0, 0, 1, 5, 8, 16, 100])), room=rng.choice([0, 0, 1, 7, 8, 9, 100]))
            c.op('fsum', o, a=a)
        elif k < .92:
            c.op('freset', o, a=a)
            if rng.random() < .5:
                c.op('fsum', o, a=a)
        else:
            c.op('fhelp', '', bytes=octets(rng, length(rng)))
    for o, a in live:
        c.op('fsum', o, a=a)
    return c
