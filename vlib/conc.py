"""The concurrent structures: calls run under controlled schedules, recorded, and checked by TLC."""
import json, os, random, re, subprocess
from infra import *

INSTR = ('sched', 'vsync', 'vatomic', 'explore')


def instrument(ctx, level, pkgs):
    """Overlay that replaces the sources of the packages by ones the scheduler can interleave."""
    tool = ctx.path('instr')
    r = subprocess.run(['go', 'build', '-o', tool, os.path.join(VERIF, 'harness/instr/main.go')], cwd=ctx.scratch, env=go_env(ctx.scratch),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError('building instr: ' + r.stdout[-2000:])
    out = ctx.path('instr-src')
    os.makedirs(out)
    r = subprocess.run([tool, str(level), out] + [os.path.join(REPO, p) for p in pkgs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        log('instr:', r.stderr)
        return None
    return json.loads(r.stdout)


def binaries(ctx, name, pkgs, more=()):
    """(the driver over rewritten packages, the driver over the packages as they are)"""
    from concurrent.futures import ThreadPoolExecutor

    def controlled():
        for level in (2, 1):
            ov = instrument(ctx, level, pkgs)
            if ov is None:
                continue
            b = ctx.build(name, INSTR + more, extra_overlay=ov, must=False)
            if b:
                ctx.notes.append('interleaving controlled at level %d (%s)' % (level, 'statements, shared reads and writes, parts of copies' if level == 2 else 'statements'))
                return b
        ctx.notes.append('the packages could not be rewritten: interleaving is left to the machine')
        return None
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(controlled), ex.submit(lambda: ctx.build(name, INSTR + more))
        return a.result(), b.result()


MODULES = {'bufmap': 'StoreTrace', 'incmap': 'CounterTrace', 'seqlock': 'LockTrace'}


def keys_of(c):
    ks = []
    for o in c['pre'] + sum(c['threads'], []) + c['post']:
        if o.get('k', '0') not in ks:
            ks.append(o.get('k', '0'))
    return ks


def trace(c, hist):
    ev = []
    ks = keys_of(c)
    if c['raw']:
        for e in hist['ev']:
            if e['e'] == 'inv':
                d = e['val']
            elif e['e'] == 'ret':
                ev.append(dict(e, e='call', d=d))
            else:
                ev.append(e)
        return {'cfg': {'size': c['l'], 's': c['s'], 'home': {k: int(k) % c['l'] for k in ks}}, 'ev': ev}
    return {'cfg': {'size': c['l'], 'keys': ks}, 'ev': hist['ev']}


def perform(ctx, controlled, plain, cases, timeout=700, shards=2):
    """Execute the cases: a list of (case, history)."""
    for i, c in enumerate(cases):
        c['id'] = i
        for s in c['strats']:
            if controlled is None and s['kind'] in ('dfs', 'pct', 'rand', 'list', 'hold', 'tick'):
                s.update(kind='free', n=min(s['n'], 400))
    free = lambda c: all(s['kind'] in ('free', 'seq') for s in c['strats'])
    res = {}
    a, b = [c for c in cases if not free(c)], [c for c in cases if free(c)]
    if a:
        res.update(ctx.run_cases(controlled, a, timeout=timeout, shards=8))
    if b:
        res.update(ctx.run_cases(plain, b, timeout=timeout, shards=shards if any(s['kind'] == 'free' for c in b for s in c['strats']) else 8))
    items = []
    runs = dropped = full = 0
    for c in cases:
        r = res.get(c['id'])
        if r is None:
            raise CheckError('no result for case %d' % c['id'])
        if 'crash' in r:
            raise Violation('case %d (%s): crash of the code under test: %s' % (c['id'], c['kind'], r['crash'][:800]), {'case': c, 'crash': r['crash']})
        runs += r['runs']
        dropped += r['dropped']
        full += sum(1 for s, done in zip(c['strats'], r['complete']) if done and s['kind'] == 'dfs')
        for h in r['hists']:
            items.append((c, h))
    ctx.notes.append('%d executions of %d scenarios gave %d different histories (%d more not kept); %d systematic searches were complete' %
                     (runs, len(cases), len(items), dropped, full))
    return items


def rejected(c, h, ev, l, out):
    e = ev[l] if l < len(ev) else None
    raise Violation('scenario %d (%s): event %d of a history of the real code is not a behaviour of the specification: %s' %
                    (c['id'], c['kind'], l, json.dumps(e)[:800]),
                    {'case': {k: v for k, v in c.items() if k != 'strats'}, 'strategy': c['strats'][h['strat']], 'run': h['run'], 'rejected_event': l,
                     'history': [{k: v for k, v in x.items() if v not in ('', [], False, 0)} for x in ev], 'tlc': out[-1500:]})


def run(ctx, controlled, plain, cases, timeout=700, group=6000):
    """Execute the cases and validate every history."""
    items = [(c, h, trace(c, h)) for c, h in perform(ctx, controlled, plain, cases, timeout)]
    by = {}
    for it in items:
        by.setdefault('MapSeqTrace' if it[0]['raw'] else MODULES[it[0]['what']], []).append(it)
    for module, its in by.items():
        for i in range(0, len(its), group):
            part = its[i:i + group]
            bad = ctx.validate(module, {'traces': [x[2] for x in part]}, timeout=timeout)
            if bad:
                t, l, out = bad
                c, h, tr = part[t]
                rejected(c, h, tr['ev'], l, out)
    if not ctx.samples:
        for c, h, tr in items[:2]:
            ctx.samples.append({'scenario': c['kind'], 'threads': c['threads'], 'history': [{k: v for k, v in x.items() if v not in ('', [], False)} for x in tr['ev'][:8]]})


# ---- scenarios -----------------------------------------------------------

def case(what, kind, threads, pre=(), post=(), l=16, s=64, raw=False, strats=(), cap=1500, ms=4000):
    if what == 'incmap' and not raw and any(o.get('id', 0) > 21 for t in [pre, post] + list(threads) for o in t):
        raise CheckError('too many increments for the digits of a counter')
    return {'what': what, 'kind': kind, 'l': l, 's': s, 'raw': raw, 'pre': list(pre), 'threads': [list(t) for t in threads], 'post': list(post),
            'strats': [dict(x) for x in strats], 'max': cap, 'ms': ms}


class Ids:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


def upd(k, ids, fail=False):
    return {'op': 'upd', 'k': str(k), 'id': ids(), 'fail': fail}


def inc(k, ids):
    return {'op': 'inc', 'k': str(k), 'id': ids() - 1}


def get(k):
    return {'op': 'get', 'k': str(k)}


def dfs(bound, n, visible=False):
    return {'kind': 'dfs', 'bound': bound, 'n': n, 'visible': visible}


def pct(depth, n, seed, visible=False):
    return {'kind': 'pct', 'bound': depth, 'n': n, 'seed': seed, 'visible': visible}


def rand(p, n, seed):
    return {'kind': 'rand', 'p': p, 'n': n, 'seed': seed}


def free(n):
    return {'kind': 'free', 'n': n}


def hold(n=10000, victim=0, steps=200000):
    """The victim is held up once, at every point in turn, until the others are done."""
    return {'kind': 'hold', 'n': n, 'victim': victim, 'steps': steps}


def tick(j, w, victim=0, steps=0):
    """The victim is held up again and again, after every 1 to j points for 1 to w points of the others."""
    return {'kind': 'tick', 'n': j * w, 'j': j, 'w': w, 'victim': victim, 'steps': steps}


def searches(ctx, rng, big=False):
    """The ways a scenario is interleaved: all schedules with one preemption, all with two at operations on
    shared memory as far as the time allows, and random ones."""
    n = ctx.budget(1, 6)
    return [dfs(1, 6000 * n), dfs(2, 12000 * n, True), pct(4, 1500 * n, rng.randrange(1 << 30)), pct(3, 1500 * n, rng.randrange(1 << 30), True),
            rand(.3, 500 * n, rng.randrange(1 << 30)), rand(.05, 500 * n, rng.randrange(1 << 30))]


def pool(rng, l, n):
    """Distinct keys: colliding ones, neighbours, ones at the end of the table, large ones."""
    edge = rng.choice([1 << 64, 1 << 64, 1 << 63, 1 << 32, 1 << 31])
    if rng.random() < .2:               # neighbours of a limit of the integers and the keys whose places theirs run into
        near = [edge - 1 - i for i in range(12)] + [(edge - 1) % l + i + 1 for i in range(12)] + [edge + i for i in range(12)]
        near = list(dict.fromkeys(k for k in near if 0 < k < 1 << 64))
        rng.shuffle(near)
        near = [edge - 1] + [k for k in near if k != edge - 1]
        if len(near) >= n:
            return near[:n]
    base = rng.choice([1, 2, l - 1, l, l + 1, 2 * l - 1, 3 * l - 2, rng.randrange(1, 1 << 64), (1 << 64) - 1 - rng.randrange(3 * l + 2), 1 << 32, 1 << 63])
    out = []
    tries = 0
    while len(out) < n:
        tries += 1
        k = rng.choice([base, base + l * rng.randrange(40), base + l * (1 << 32), base - l * rng.randrange(10), base + rng.randrange(4),
                        base + rng.randrange(l + 2), rng.randrange(1, 1 << 64), base + (1 << rng.randrange(64))] if tries < 30 else [rng.randrange(1, 1 << 64)])
        if 0 < k < 1 << 64 and k not in out:
            out.append(k)
    return out


def sizes(rng):
    return rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 9, 10, 11, 11, 12, 13, 16, 22, 23, 31, 64, 100, rng.randint(1, 50)])


def seq_store(rng, n):
    l = sizes(rng)
    s = rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 200])
    style = rng.choice(['mixed', 'mixed', 'fill', 'crowd', 'edge'])
    ks = pool(rng, l, rng.randint(1, min(l + 4, 30)))
    if style == 'fill':
        b = rng.choice([1, rng.randrange(1, 1 << 63), l])
        ks = [b + i for i in range(min(l + 3, 40))]
    elif style == 'edge':
        # every place that a probe from the top key may reach is taken, except one
        l = rng.choice([11, 12, 13, 14, 17, 19, 22, 23, 31, rng.randint(11, 60)])
        top = rng.choice([1 << 64, 1 << 64, 1 << 64, 1 << 63, 1 << 32]) - 1 - rng.choice([0, 0, 1, 2, 5, 9])
        hole = rng.randint(0, 12)
        ks = []
        for i in range(12):
            p = (top + i) % l
            if i != hole:
                ks.append(p + l * rng.randint(1, 3) if i else top - l * rng.randint(1, 3))
        ks = [k for k in dict.fromkeys(ks) if 0 < k < 1 << 64]
        if rng.random() < .5:
            rng.shuffle(ks)
        ks += [top] + [k for k in (top - 1, top + 1) if 0 < k < 1 << 64]
        ks = list(dict.fromkeys(ks))
    elif style == 'crowd':
        b = rng.choice([1, l - 1, l, rng.randrange(1, 1 << 60)]) or 1
        ks = [b + i * l for i in range(rng.randint(9, 14))] + pool(rng, l, 2)
    ids = Ids()
    ops = []
    todo = list(dict.fromkeys(ks))
    if style == 'mixed':
        rng.shuffle(todo)
    for k in todo:
        if rng.random() < .25:
            ops.append(get(k))
        if rng.random() < .15:
            ops.append(upd(k, ids, fail=True))
        ops.append(upd(k, ids))
        if rng.random() < .7:
            ops.append(get(k))
        if rng.random() < .3:
            ops.append(get(rng.choice(todo)))
        if rng.random() < .05:
            ops.append(rng.choice([upd(0, ids), get(0)]))
    for _ in range(n):
        k = rng.choice(todo)
        ops.append(rng.choice([upd(k, ids), upd(k, ids, fail=True), get(k), get(k)]))
    ops += [get(k) for k in todo] + [get(0), get(rng.randrange(1, 1 << 64))]
    return case('bufmap', 'sequential ' + style, [], pre=ops, l=l, s=s, raw=True, strats=[{'kind': 'seq', 'n': 1}])


def seq_large(rng):
    """A store of very many slots, or of long records."""
    ids = Ids()
    if rng.random() < .6:
        l, s = rng.choice([(65536, 2), (65537, 8), (70001, 3), (131072, 1), (200003, 8), (1000003, 1)])
        b = rng.choice([1, 7, 65530, l - 3])
        ks = [b + i * rng.choice([l, 65536, 1, 32768, 1 << 32]) for i in range(rng.randint(3, 8))] + [l, l - 1, 65535, 65536, 65537, (1 << 32) + b, (1 << 16) + b]
    else:
        l, s = rng.choice([2, 3, 11, 12, 30]), rng.choice([255, 256, 257, 1000, 1024, 1025, 4096, 5000])
        ks = [rng.choice([1, l, l + 1, 5]) + i * rng.choice([1, l]) for i in range(min(l, 5))]
    ks = list(dict.fromkeys(k for k in ks if 0 < k < 1 << 64))
    rng.shuffle(ks)
    ops = []
    for k in ks:
        ops += [upd(k, ids, fail=rng.random() < .1)] + [get(k)] * rng.randint(0, 1)
    for _ in range(rng.randint(0, 6)):
        k = rng.choice(ks)
        ops.append(rng.choice([upd(k, ids), upd(k, ids, fail=True), get(k)]))
    ops += [get(k) for k in ks]
    return case('bufmap', 'sequential large', [], pre=ops, l=l, s=s, raw=True, strats=[{'kind': 'seq', 'n': 1}])


def seq_huge(rng):
    """A store of more than 4 GiB, of which only a few slots are ever touched."""
    l, s = rng.choice([(131101, 33000), (4200011, 1030), (67001, 65000)])
    ids = Ids()
    edges = [(1 << 31) // s, (1 << 32) // s]
    ks = [e + d for e in edges for d in (-1, 0, 1, 2)] + [1, 2, 3, l - 1, l - 2, l, l + 1] + [rng.randrange(1, l) for _ in range(3)]
    ks = list(dict.fromkeys(ks))
    rng.shuffle(ks)
    ops = [upd(k, ids) for k in ks] + [get(k) for k in ks] + [get(k % ((1 << 32) // s) + 5) for k in ks[:4]]
    return case('bufmap', 'sequential huge', [], pre=ops, l=l, s=s, raw=True, strats=[{'kind': 'seq', 'n': 1}])


def seq_large_counters(rng):
    c = seq_large(rng)
    ops = [o if o['op'] == 'get' else {'op': 'inc', 'k': o['k'], 'd': str(rng.choice([1, 2, 1 << 63, rng.randrange(1 << 64)]))} for o in c['pre']]
    c.update(what='incmap', pre=ops)
    return c


def seq_counters(rng, n):
    c = seq_store(rng, n)
    ops = []
    for o in c['pre']:
        if o['op'] == 'upd':
            ops.append({'op': 'inc', 'k': o['k'], 'd': str(rng.choice([0, 1, 1, 2, 1000, (1 << 32) - 1, 1 << 32, (1 << 64) - 1, rng.randrange(1 << 64)]))})
        else:
            ops.append(o)
    c.update(what='incmap', pre=ops)
    return c


def some_store(rng, ctx, strats):
    """A random small scenario."""
    l = rng.choice([1, 2, 2, 3, 5, 11, 12, 16])
    ks = pool(rng, l, rng.choice([1, 1, 2, 2, 3]))
    ids = Ids()

    def op():
        k = rng.choice(ks)
        return rng.choice([upd(k, ids), upd(k, ids), upd(k, ids, fail=True), get(k), get(k)])
    pre = [upd(rng.choice(ks), ids) for _ in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < .3:
        k = rng.choice(ks)
        pre += [upd(x, ids) for x in [k + j * l for j in range(1, rng.randint(2, 11))] if 0 < x < 1 << 64]
    n = rng.choice([2, 2, 2, 3, 3, 4])
    threads = [[op() for _ in range(rng.randint(1, 3 if n < 4 else 2))] for _ in range(n)]
    return case('bufmap', 'random', threads, pre=pre, post=[get(k) for k in ks], l=l, s=rng.choice([40, 41, 64, 127, 300]), strats=strats)


def some_counters(rng, ctx, strats):
    c = some_store(rng, ctx, strats)
    n = [0]

    def conv(o):
        if o['op'] != 'upd':
            return o
        n[0] += 1
        return {'op': 'inc', 'k': o['k'], 'id': n[0] - 1}
    c['pre'] = [conv(o) for o in c['pre']][:10]
    c['threads'] = [[conv(o) for o in t] for t in c['threads']]
    c['what'] = 'incmap'
    return c


def narrow(ctx, rng, what):
    """Writes that differ from what is there in eight bytes only."""
    out = []
    for where in ('mid', 'ends'):
        for pre in (0, 1):
            for kind in ['upd'] if what == 'bufmap' else ['upd', 'put']:
                ids = Ids()
                w = lambda: upd(5, ids) if what == 'bufmap' else put(ids) if kind == 'put' else lupd(ids)
                read = get(5) if what == 'bufmap' else LGET
                p = [w() for _ in range(pre)]
                for threads in ([[w(), w()], [read, read]], [[w()], [w()], [read]], [[w()], [dict(w(), fail=kind == 'upd')], [read, read]]):
                    c = case(what, 'writes of eight bytes, ' + where, threads, pre=p, post=[read], s=rng.choice([64, 200, 1000]),
                             strats=[dfs(1, 3000 * ctx.budget(1, 4)), dfs(2, 3000 * ctx.budget(1, 4), True), pct(3, 800 * ctx.budget(1, 4), rng.randrange(1 << 30))],
                             ms=ctx.budget(800, 15000))
                    c['narrow'] = where
                    out.append(c)
    return out


def put(ids):
    return {'op': 'put', 'id': ids(), 'k': '0'}


def lupd(ids, fail=False):
    return {'op': 'upd', 'id': ids(), 'fail': fail, 'k': '0'}


LGET = {'op': 'get', 'k': '0'}


def some_lock(rng, ctx, strats, threads=None, n=None):
    ids = Ids()

    def op():
        return rng.choice([lambda: put(ids), lambda: lupd(ids), lambda: lupd(ids, True), lambda: LGET, lambda: LGET])()
    pre = [op() for _ in range(rng.choice([0, 0, 1, 2]))]
    th = [[op() for _ in range(n or rng.randint(1, 3))] for _ in range(threads or rng.choice([2, 2, 3, 4]))]
    return case('seqlock', 'random', th, pre=pre, post=[LGET], strats=strats)


def fixed_store(ctx, rng):
    out = []

    def add(kind, mk, l=16, s=64, pre=None, keys=(5,)):
        ids = Ids()
        p = pre(ids) if pre else []
        out.append(case('bufmap', kind, mk(ids), pre=p, post=[get(k) for k in keys], l=l, s=s, strats=searches(ctx, rng), ms=ctx.budget(2500, 30000)))
    add('two writers create a record', lambda i: [[upd(5, i)], [upd(5, i)]])
    add('three writers create a record', lambda i: [[upd(5, i)], [upd(5, i)], [upd(5, i)]])
    add('reader while the record is created', lambda i: [[upd(5, i)], [get(5), get(5)]])
    add('reader while a long record is created', lambda i: [[upd(5, i)], [get(5), get(5)]], s=1000)
    add('two readers while it is updated', lambda i: [[upd(5, i), upd(5, i)], [get(5)], [get(5), get(5)]], pre=lambda i: [upd(5, i)])
    add('failing creator and another', lambda i: [[upd(5, i, True)], [upd(5, i)], [get(5)]])
    add('failing update and reader', lambda i: [[upd(5, i, True)], [get(5), get(5)], [upd(5, i)]], pre=lambda i: [upd(5, i)])
    add('colliding keys created together', lambda i: [[upd(5, i), get(7)], [upd(7, i), get(5)]], l=2, keys=(5, 7))
    add('colliding keys, same key twice', lambda i: [[upd(5, i)], [upd(5, i)], [upd(21, i), get(21)]], keys=(5, 21))
    add('last slot taken by one of two', lambda i: [[upd(1, i)], [upd(2, i)], [get(1), get(2)]], l=1, keys=(1, 2))
    add('neighbours', lambda i: [[upd(4, i), upd(4, i)], [get(5), get(5)], [upd(5, i)]], l=3, keys=(4, 5), pre=lambda i: [upd(4, i), upd(5, i)])
    for l in (11, 13):                  # ten records leave one place within reach
        new = 5 + 10 * l
        add('last place within reach, same key', lambda i: [[upd(new, i), get(new)], [upd(new, i)]], l=l, s=48, keys=(5, new), pre=lambda i: [upd(5 + l * j, i) for j in range(10)])
        add('last place within reach, other keys', lambda i: [[upd(new, i), get(new)], [upd(new + l, i)], [upd(new, i)]], l=l, s=48, keys=(5, new, new + l),
            pre=lambda i: [upd(5 + l * j, i) for j in range(10)])
        add('last two places within reach', lambda i: [[upd(new, i)], [upd(new + l, i), upd(new, i)], [get(new), get(new + l)]], l=l, s=48, keys=(5, new, new + l),
            pre=lambda i: [upd(5 + l * j, i) for j in range(9)])
    out += far_apart(ctx, 'bufmap')
    add('many readers', lambda i: [[upd(5, i), upd(5, i)], [get(5)], [get(5)], [get(5)]], pre=lambda i: [upd(5, i)])
    return out


def far_apart(ctx, what):
    """One caller is held up while others deal with records that share nothing with its own but what a careless program
    may divide by: places that are a power of two, ten or a hundred apart."""
    out = []
    far = [1 + d for d in (1, 2, 3, 4, 5, 7, 8, 10, 16, 20, 32, 50, 64, 100, 128, 256, 500, 512, 1000, 1024, 2000, 2048, 4096)]
    for strat in (hold(), tick(*ctx.budget((6, 12), (30, 80)))):
        for part in [far[i::n] for n in [2 if what == 'bufmap' else 3] for i in range(n)]:
            for first in ('new', 'old', 'read'):
                ids = Ids()
                op = (lambda k: upd(k, ids)) if what == 'bufmap' else (lambda k: inc(k, ids))
                out.append(case(what, 'records far apart', [[get(1), get(1)] if first == 'read' else [op(1), get(1)], [f(k) for k in part for f in (op, get)]],
                                pre=[op(k) for k in ([] if first == 'new' else [1] + part)], post=[get(k) for k in [1] + part], l=5000, s=40, strats=[strat],
                                ms=ctx.budget(4000, 30000)))
    return out


def held_up(ctx, rng, what):
    """A reader is held up in the middle for 1, 2, ... and very many writes, or again and again."""
    out = []

    def w(ids, times=0, kind='upd'):
        o = upd(5, ids) if what == 'bufmap' else put(ids) if kind == 'put' else lupd(ids)
        return dict(o, times=times)
    read = get(5) if what == 'bufmap' else LGET

    def add(kind, others, strat, pre=1):
        ids = Ids()
        out.append(case(what, kind, [[read, read]] + others(ids), pre=[w(ids) for _ in range(pre)], post=[read], s=rng.choice([60, 64, 200]),
                        strats=[strat], ms=ctx.budget(8000, 60000)))
    kinds = ['upd'] if what == 'bufmap' else ['upd', 'put']
    if what == 'bufmap':
        for l in (12, 16):
            ks = [5 + l * j for j in range(9)]
            for st in (hold(), tick(*ctx.budget((12, 40), (30, 80)))):
                ids = Ids()
                out.append(case(what, 'claim overtaken by other keys', [[upd(5, ids), get(5)], [upd(k, ids) for k in ks[1:]] + [get(k) for k in ks], [upd(5, ids)]],
                                post=[get(k) for k in ks], l=l, s=60, strats=[st], ms=ctx.budget(8000, 60000)))
    for k in kinds:
        for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20):
            add('reader held up for %d writes' % n, lambda i: [[w(i, kind=k) for _ in range(n)]], hold())
        for n in (60, 100, 128, 1000, 32768) + ((1 << 16, 10 ** 5) if ctx.tier == 'thorough' else ()):
            add('reader held up for %d writes' % n, lambda i: [[w(i, n, kind=k)]], hold(steps=200 * n + 100000))
        add('reader held up while it is created', lambda i: [[w(i, 8, kind=k)]], hold(), pre=0)
        add('reader overtaken many times', lambda i: [[w(i, kind=k) for _ in range(20)]], tick(*ctx.budget((12, 40), (30, 80))))
        add('reader overtaken all the time', lambda i: [[w(i, ctx.budget(300, 5000), kind=k)]], tick(*ctx.budget((12, 40), (30, 60)), steps=1000000))
        me = lambda i, fail: [dict(w(i, kind=k), fail=fail) if k == 'upd' else w(i, kind=k), read]
        for fail in ((False, True) if k == 'upd' else (False,)):
            add('writer held up', lambda i: [me(i, fail)] + [[w(i, kind=k) for _ in range(4)]], hold())
            add('writer overtaken many times', lambda i: [me(i, fail)] + [[w(i, kind=k) for _ in range(20)]], tick(*ctx.budget((12, 30), (30, 60))))
        add('reader overtaken by two', lambda i: [[w(i, kind=k) for _ in range(8)], [w(i, kind=k) for _ in range(8)]], tick(*ctx.budget((12, 30), (30, 60))))
    return out


def held_up_counters(ctx, rng):
    """An increment is held up, once or again and again, while others increment the counter or claim its slots."""
    out = []

    def add(kind, threads, strat, l=16, pre=lambda i: [], keys=(5,)):
        ids = Ids()
        p = pre(ids)
        out.append(case('incmap', kind, threads(ids), pre=p, post=[get(k) for k in keys], l=l, strats=[strat], ms=ctx.budget(8000, 60000)))
    for n in (1, 2, 3, 4, 8, 12):
        for pre in (lambda i: [], lambda i: [inc(5, i)]):
            add('increment held up for %d others' % n, lambda i: [[inc(5, i), get(5)], [inc(5, i) for _ in range(n)]], hold(), pre=pre)
            add('reader held up for %d increments' % n, lambda i: [[get(5), get(5)], [inc(5, i) for _ in range(n)]], hold(), pre=pre)
    add('increment overtaken many times', lambda i: [[inc(5, i), get(5)], [inc(5, i) for _ in range(18)]], tick(*ctx.budget((12, 30), (30, 60))))
    add('counter overtaken many times', lambda i: [[inc(5, i), inc(5, i)], [inc(5, i) for _ in range(8)], [inc(5, i) for _ in range(8)]], tick(*ctx.budget((12, 30), (30, 60))))
    for l in (12, 16):
        ks = [5 + l * j for j in range(9)]
        add('claim overtaken by other keys', lambda i: [[inc(5, i), get(5)], [inc(k, i) for k in ks[1:]], [inc(5, i)]], tick(*ctx.budget((12, 30), (30, 60))), l=l, keys=ks)
        add('claim held up for other keys', lambda i: [[inc(5, i), get(5)], [inc(k, i) for k in ks[1:]] + [get(k) for k in ks]], hold(), l=l, keys=ks)
    return out


def fixed_counters(ctx, rng):
    out = []

    def add(kind, mk, l=16, pre=None, keys=(5,)):
        ids = Ids()
        p = pre(ids) if pre else []
        out.append(case('incmap', kind, mk(ids), pre=p, post=[get(k) for k in keys], l=l, strats=searches(ctx, rng), ms=ctx.budget(1800, 20000)))
    add('two create a counter', lambda i: [[inc(5, i), get(5)], [inc(5, i), get(5)]])
    add('three create a counter', lambda i: [[inc(5, i)], [inc(5, i)], [inc(5, i)]])
    add('reader while created', lambda i: [[inc(5, i), inc(5, i)], [get(5), get(5), get(5)]])
    add('existing counter', lambda i: [[inc(5, i), inc(5, i)], [inc(5, i), get(5)], [get(5), get(5)]], pre=lambda i: [inc(5, i)])
    add('colliding keys created together', lambda i: [[inc(5, i), get(7)], [inc(7, i), get(5)]], l=2, keys=(5, 7))
    add('colliding, same key twice', lambda i: [[inc(5, i)], [inc(5, i)], [inc(21, i), get(21)]], keys=(5, 21))
    add('last slot', lambda i: [[inc(1, i)], [inc(2, i)], [get(1), get(2)]], l=1, keys=(1, 2))
    for l in (11, 13):
        new = 5 + 10 * l
        add('last place within reach, same key', lambda i: [[inc(new, i), get(new)], [inc(new, i)]], l=l, keys=(5, new), pre=lambda i: [inc(5 + l * j, i) for j in range(10)])
        add('last place within reach, other keys', lambda i: [[inc(new, i), get(new)], [inc(new + l, i)], [inc(new, i)]], l=l, keys=(5, new, new + l),
            pre=lambda i: [inc(5 + l * j, i) for j in range(10)])
    out += far_apart(ctx, 'incmap')
    add('last two slots', lambda i: [[inc(1, i), get(3)], [inc(2, i), inc(3, i)], [inc(3, i), get(1)]], l=2, keys=(1, 2, 3))
    return out


def fixed_lock(ctx, rng):
    out = []

    def add(kind, mk):
        ids = Ids()
        out.append(case('seqlock', kind, mk(ids), post=[LGET], strats=searches(ctx, rng), ms=ctx.budget(2500, 30000)))
    add('put and get', lambda i: [[put(i)], [LGET, LGET]])
    add('two puts and get', lambda i: [[put(i)], [put(i)], [LGET, LGET]])
    add('update and get', lambda i: [[lupd(i), lupd(i)], [LGET, LGET]])
    add('two updates', lambda i: [[lupd(i), lupd(i)], [lupd(i)]])
    add('update against put', lambda i: [[lupd(i)], [put(i)], [LGET]])
    add('failing update and get', lambda i: [[lupd(i, True)], [LGET, LGET], [put(i)]])
    add('failing update, then others', lambda i: [[lupd(i, True), LGET], [lupd(i), LGET]])
    add('everything', lambda i: [[put(i), LGET], [lupd(i), LGET], [lupd(i, True), LGET]])
    return out


SIM = {'bufmap': ('BufMapMC', 'CONSTANTS Procs={%s} Size=%d Hops=10 Variant="none" Emit=TRUE Family="random"\nCONSTANT Programs <- MCPrograms\nINVARIANTS Linearizable Emitted\n'),
       'incmap': ('IncMap', 'CONSTANTS Procs={%s} Size=%d Hops=10 Variant="none" Emit=TRUE Family="random"\nINVARIANTS Linearizable Emitted\n'),
       'seqlock': ('SeqLock', 'CONSTANTS Procs={%s} Variant="none" Emit=TRUE Family="random"\nINVARIANTS Linearizable Emitted\n')}


def scheduled(ctx, what, num):
    """Programs with schedules that TLC's simulator takes from the model of the algorithm."""
    module, cfg = SIM[what]
    out = []
    for procs, size in ((2, 2), (3, 2), (3, 3)):
        ps = ','.join(str(i + 1) for i in range(procs))
        rc, text, gen, dist = ctx.tlc(module, 'SPECIFICATION Spec\n' + cfg % ((ps,) if what == 'seqlock' else (ps, size)), workers=1,
                                      args=('-simulate', 'num=%d' % num, '-depth', '300', '-seed', str(ctx.seed)))
        if rc != 0:
            raise CheckError('simulation of %s: %s' % (module, text[-2000:]))
        seen = set()
        for m in re.finditer(r'^"?RUN (\{.*\})"?$', text, re.M):
            if m.group(1) in seen:
                continue
            seen.add(m.group(1))
            r = json.loads(m.group(1).replace('\\"', '"'))
            ids = Ids()
            threads = []
            for prog in r['prog']:
                th = []
                for o in prog:
                    if what == 'seqlock':
                        th.append(LGET if o['op'] == 'get' else put(ids) if o['op'] == 'put' else lupd(ids, o['fail']))
                    else:
                        th.append(get(o['k']) if o['op'] == 'get' else inc(o['k'], ids) if o['op'] == 'inc' else upd(o['k'], ids, o['fail']))
                threads.append(th)
            post = [LGET] if what == 'seqlock' else [get(k) for k in sorted({o['k'] for th in threads for o in th})]
            out.append(case(what, 'schedule from the model', threads, post=post, l=size,
                            strats=[{'kind': 'list', 'n': 1, 'lists': [[p - 1 for p in r['sched']]]}]))
    if not out:
        raise CheckError('simulation of %s printed nothing' % module)
    ctx.notes.append('%d programs and schedules generated by TLC -simulate from %s and run on the real code' % (len(out), module))
    return out
