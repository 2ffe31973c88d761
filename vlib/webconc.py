"""Concurrent requests to the server: scenarios, execution, and the histories TLC checks."""
import json, random, re
from urllib.parse import quote_from_bytes
from infra import *
import conc, web

# packages whose statements the scheduler interleaves
PKGS = ('internal/bufmap', 'internal/storage', 'internal/collation', 'internal/server', 'internal/query', 'internal/hash/fnv',
        'internal/summary/stat64', 'internal/summary/hll', 'internal/bitbucket')


class Scenario:
    """Requests on stores A (by a), B (by a and b), C (one record), D (by a, only counts) and E (by a, many fields); observation
    i has x = 4^i or, if it is a quiet one, neither x nor y.  The fields x2, x3, ... of E have the value of x."""

    def __init__(self, rng, kind, which='ABC', yprec=None):
        self.rng, self.kind = rng, kind
        p = yprec or rng.choice([4, 4, 5, 6])
        ms = ['sum', 'max', 'min', 'mean', 'var']
        rng.shuffle(ms)
        keys = {'A': [b'a'], 'B': [b'a', b'b'], 'C': [], 'D': [b'a'], 'E': [b'a']}
        self.stores = []
        for w in which:
            groups = [(b'x', ms), (b'y', [('uniquecount', p)])]
            if yprec and yprec > 8 or rng.random() < .5:
                groups.reverse()
            if w == 'E':
                groups = groups[:1] + [(b'x%d' % i, [rng.choice(ms)]) for i in range(2, 9)] + groups[1:]
                rng.shuffle(groups)
            self.stores.append(web.schema(w, keys[w], ['count'], [] if w == 'D' else groups, slots=64))
        self.which = which
        self.obs, self.reqs = [], []
        self.nums = {}
        self.wire = False

    def row(self, a=None, b=None, y=True, bad=False, quiet=False):
        """A new observation: its number."""
        i = len(self.obs)
        assert i < 26 or quiet
        r = [] if quiet else [(b'x', b'high' if bad else str(4 ** i).encode())]
        if 'E' in self.which and r:
            r += [(b'x%d' % j, r[0][1]) for j in range(2, 9)]
        if a is not None:
            r.append((b'a', a))
        if b is not None:
            r.append((b'b', b))
        if y and not quiet:
            r.append((b'y', b'v%d' % i))
        if self.rng.random() < .3:
            r.append((b'other', b'%d' % self.rng.randint(0, 99)))
        self.rng.shuffle(r)
        for f, v in r:
            n = web.number(v)
            if n:
                self.nums[enc(v)] = n
        self.obs.append(r)
        return i

    def post(self, *lines):
        """lines: numbers of observations, or None for a line that cannot be parsed."""
        rng = self.rng
        sep = rng.choice([b'\n', b'\n', b'\r\n'])
        text = sep.join(web.line(self.obs[i], rng, b'|\t;,') if i is not None else rng.choice([b'bad', b'', b'|x=1']) for i in lines)
        if rng.random() < .5 or lines[-1] is None:
            text += sep
        form = rng.random() < .2
        self.reqs.append({'op': 'post', 'lines': [{'ok': i is not None, 'id': i or 0} for i in lines], 'name': '', 'sel': [], 'crit': []})
        return {'op': 'post', 'req': len(self.reqs), 'target': '/obs', 'ct': 'application/x-www-form-urlencoded' if form else rng.choice(['', 'text/plain']),
                'body': enc(b'data=' + quote_from_bytes(text, safe='').encode() if form else text),
                'chunks': [rng.randint(5, 40)] if rng.random() < .4 else [], 'skip': 0}

    def resend(self, op):
        """The same bytes again, as another request: its observations are quiet ones, or its lines bad."""
        req = self.reqs[op['req'] - 1]
        lines = []
        for x in req['lines']:
            if x['ok']:
                lines.append({'ok': True, 'id': len(self.obs)})
                self.obs.append(self.obs[x['id']])
            else:
                lines.append(x)
        self.reqs.append(dict(req, lines=lines))
        return dict(op, req=len(self.reqs))

    def query(self, name, a=None, b=None, full=None):
        rng = self.rng
        s = self.stores[self.which.index(name)]
        crit = [(k, v) for k, v in ((b'a', a), (b'b', b)) if dec_key(k) in s['keys']] or [(b'z', b'z')]
        if rng.random() < .3:
            crit.append((b'w', b'%d' % rng.randint(0, 9)))
        rng.shuffle(crit)
        pairs = [(web.dec(m), web.dec(f)) for m, f in web.pairs_of(s)]
        if full is None:
            full = rng.random() < .7
        if not full:
            pairs = [p for p in pairs if p in ((b'sum', b'x'), (b'count', b'*')) or rng.random() < .6]
        rng.shuffle(pairs)
        self.reqs.append({'op': 'query', 'lines': [], 'name': enc(name), 'sel': [{'m': enc(m), 'f': enc(f)} for m, f in pairs],
                          'crit': [{'f': enc(f), 'v': enc(v)} for f, v in crit]})
        return {'op': 'query', 'req': len(self.reqs), 'target': '/collation/' + name + '?q=' + quote_from_bytes(web.qtext(pairs, crit), safe=''), 'ct': '',
                'body': '', 'chunks': [], 'skip': len(crit)}

    def all_queries(self, values):
        """Queries of every record the observations can have made."""
        out = []
        for name in self.which:
            done = set()
            for r in self.obs:
                d = dict(r)
                k = tuple(d.get(web.dec(x)) for x in self.stores[self.which.index(name)]['keys'])
                if None not in k and k not in done:
                    done.add(k)
                    out.append(self.query(name, d.get(b'a'), d.get(b'b'), full=True))
        return out

    def case(self, threads, pre=(), post=None, strats=(), cap=600, ms=4000, wire=False):
        c = {'kind': self.kind, 'stores': self.stores, 'pre': list(pre), 'threads': [list(t) for t in threads],
             'post': self.all_queries(None) if post is None else list(post), 'strats': [dict(s) for s in strats], 'max': cap, 'ms': ms, 'wire': wire}
        c['cfg'] = {'stores': self.stores, 'obs': [[{'f': enc(f), 'v': enc(v)} for f, v in r] for r in self.obs], 'reqs': self.reqs}
        c['nums'] = self.nums
        return c


def dec_key(k):
    return enc(k)


def run(ctx, controlled, plain, cases, timeout=700, group=3000):
    send = [{k: v for k, v in c.items() if k not in ('cfg', 'nums')} for c in cases]
    for c, s in zip(cases, send):
        c['strats'] = s['strats']
    items = conc.perform(ctx, controlled, plain, send, timeout)
    for c, s in zip(cases, send):
        c['id'] = s['id']
    nums = {'0': {'k': 'num', 'v': '0'}}
    for c in cases:
        nums.update(c['nums'])
    for i in range(0, len(items), group):
        part = items[i:i + group]
        ids = sorted({c['id'] for c, h in part})
        pos = {x: n + 1 for n, x in enumerate(ids)}
        bad = ctx.validate('ConcTrace', {'cfgs': [cases[x]['cfg'] for x in ids], 'num': nums,
                                         'traces': [{'c': pos[c['id']], 'ev': h['ev']} for c, h in part]}, timeout=timeout)
        if bad:
            t, l, out = bad
            c, h = part[t]
            full = cases[c['id']]
            ev = [dict(e, request=full['cfg']['reqs'][e['req'] - 1]) if e.get('req') else e for e in h['ev']]
            conc.rejected(dict(c, observations=full['cfg']['obs']), h, ev, l, out)
    if not ctx.samples:
        for c, h in items[:2]:
            ctx.samples.append({'scenario': c['kind'], 'history': [{k: v for k, v in x.items() if v not in ('', [], False)} for x in h['ev'][:8]]})


# ---- scenarios -----------------------------------------------------------

def fixed(ctx, rng, queries):
    """Scenarios for every kind of race; queries: with queries in between."""
    out = []
    n = ctx.budget(1, 6)

    def add(kind, mk, which='A', n=n, yprec=None, **kw):
        s = Scenario(random.Random(rng.randrange(1 << 30)), kind, which, yprec)
        pre, threads = mk(s)
        strats = [conc.dfs(1, int(6000 * n)), conc.dfs(2, int(6000 * n), True), conc.pct(3, int(1500 * n), rng.randrange(1 << 30), True),
                  conc.pct(4, int(1500 * n), rng.randrange(1 << 30)), conc.rand(.2, int(300 * n), rng.randrange(1 << 30)), conc.rand(.02, int(300 * n), rng.randrange(1 << 30))]
        out.append(s.case(threads, pre, strats=strats, ms=int(ctx.budget(4000, 40000) * min(n, 1)), **kw))

    def slow(kind, mk, which='A', strats=None):
        """The first thread is held up, once or again and again."""
        s = Scenario(random.Random(rng.randrange(1 << 30)), kind, which)
        pre, threads = mk(s)
        out.append(s.case(threads, pre, strats=strats or [conc.hold(), conc.tick(*ctx.budget((6, 12), (20, 40)))], ms=ctx.budget(5000, 60000), cap=300))

    def w(s, *a, **k):
        return s.post(s.row(*a, **k))
    lots = lambda s, n, *a, **k: s.post(*[s.row(*a, **k) for _ in range(n)])
    if not queries:
        for which, quiet in (('A', False), ('D', True), ('ABC', False)):
            slow('update held up', lambda s: ([w(s, b'1', b'1')], [[w(s, b'1', b'1', quiet=quiet)]] + [[lots(s, 4, b'1', b'1', quiet=quiet), w(s, b'1', b'1', quiet=quiet)]]), which)
            slow('creation held up', lambda s: ([], [[w(s, b'1', b'1', quiet=quiet)]] + [[w(s, b'1', b'1', quiet=quiet)], [w(s, b'1', b'1', quiet=quiet), w(s, b'2', b'1')]]), which)
            slow('batch held up', lambda s: ([], [[lots(s, 3, b'1', b'1', quiet=quiet)], [w(s, b'1', b'1', quiet=quiet) for _ in range(4)], [w(s, b'2', b'1')]]), which)
            slow('rejected held up', lambda s: ([], [[w(s, b'1', b'1', bad=True)], [w(s, b'1', b'1', quiet=quiet) for _ in range(4)]]), which)
    else:
        for which, quiet in (('A', False), ('D', True)):
            for many in (1, 2, 3, 4, 6, 8, 12, 16, 20):
                slow('query held up for %d observations' % many, lambda s: ([w(s, b'1')], [[s.query(which, b'1', full=True), s.query(which, b'1', full=True)],
                                                                          [lots(s, many, b'1', quiet=quiet)]]), which, [conc.hold()])
            slow('query held up for batches', lambda s: ([w(s, b'1')], [[s.query(which, b'1', full=True), s.query(which, b'1')], [w(s, b'1', quiet=quiet) for _ in range(9)],
                                                                       [w(s, b'1', quiet=quiet) for _ in range(9)]]), which)
            slow('query of a new record held up', lambda s: ([], [[s.query(which, b'1', full=True), s.query(which, b'1', full=True)], [lots(s, 8, b'1', quiet=quiet)]]), which)
            slow('writer held up during queries', lambda s: ([w(s, b'1')], [[lots(s, 3, b'1', quiet=quiet)]] + [[s.query(which, b'1', full=True) for _ in range(3)] for _ in range(2)]), which)
    if not queries:
        add('two create a record', lambda s: ([], [[w(s, b'1')], [w(s, b'1')]]))
        add('three create a record', lambda s: ([], [[w(s, b'1')], [w(s, b'1')], [w(s, b'1')]]))
        add('two update a record', lambda s: ([w(s, b'1')], [[w(s, b'1'), w(s, b'1')], [w(s, b'1'), w(s, b'1')]]))
        add('batches to the same records', lambda s: ([], [[s.post(s.row(b'1'), s.row(b'2'))], [s.post(s.row(b'2'), s.row(b'1'))]]))
        add('different records', lambda s: ([], [[s.post(s.row(b'1'), s.row(b'1'))], [s.post(s.row(b'2'), s.row(b'2'))]]))
        add('three collations', lambda s: ([], [[w(s, b'1', b'1')], [w(s, b'1', b'2')]]), 'ABC')
        add('bad lines', lambda s: ([], [[s.post(s.row(b'1'), None, s.row(b'1'))], [s.post(s.row(b'1'), s.row(b'1', bad=True), s.row(b'1'))]]))
        add('rejected creation', lambda s: ([], [[s.post(s.row(b'1', bad=True))], [w(s, b'1')]]))
        add('quiet observations', lambda s: ([], [[w(s, b'1', quiet=True)], [w(s, b'1', quiet=True), w(s, b'1', quiet=True)]]))
        add('quiet batches', lambda s: ([], [[s.post(s.row(b'1', quiet=True), s.row(b'1', quiet=True))], [s.post(s.row(b'1'), s.row(b'1', quiet=True))]]), 'DA')
        for which in 'DA':
            def twice(s, n, m):
                o = [s.post(*[s.row(b'1', quiet=True) for _ in range(n)])]
                for _ in range(5):
                    o.append(s.resend(o[0]))
                return [o[:2], o[2:4]] + ([o[4:5]] if m else [])
            add('the same body twice', lambda s: ([], twice(s, 1, 0)), which)
            add('the same body three times', lambda s: ([w(s, b'1')], twice(s, 2, 1)), which)
        add('many fields', lambda s: ([], [[w(s, b'1'), w(s, b'1')], [w(s, b'1')]]), 'E', n / 6)
        add('many fields, three collations', lambda s: ([], [[w(s, b'1', b'1'), w(s, b'1', b'1')], [w(s, b'1', b'1'), w(s, b'2', b'1')]]), 'EAB', n / 6)
        for size in (20, 40):
            add('batches of %d' % size, lambda s: ([], [[w(s, b'1')], [lots(s, size, b'1', quiet=True)], [lots(s, size, b'1', quiet=True)]]), 'D', n / 5)
        add('batches to two collations', lambda s: ([], [[lots(s, 18, b'1', quiet=True)], [w(s, b'1'), lots(s, 18, b'1', quiet=True)]]), 'DA', n / 5)
        add('observations without y', lambda s: ([], [[w(s, b'1', y=False)], [w(s, b'1')]]))
    else:
        add('query while created', lambda s: ([], [[w(s, b'1')], [s.query('A', b'1'), s.query('A', b'1')]]))
        add('queries of many fields', lambda s: ([w(s, b'1')], [[w(s, b'1'), w(s, b'1')], [s.query('E', b'1', full=True), s.query('E', b'1', full=True)]]), 'E', n / 6)
        add('queries of many fields of new records', lambda s: ([], [[w(s, b'1'), w(s, b'2')], [s.query('E', b'1', full=True), s.query('E', b'2', full=True)], [s.query('E', b'1', full=True)]]), 'EA', n / 8)
        add('queries during large batches', lambda s: ([w(s, b'1')], [[lots(s, 30, b'1', quiet=True), s.query('D', b'1', full=True)], [s.query('D', b'1', full=True) for _ in range(4)]]), 'D', n / 5)
        add('query while updated', lambda s: ([w(s, b'1')], [[w(s, b'1'), w(s, b'1')], [s.query('A', b'1'), s.query('A', b'1')]]))
        add('two queries while updated', lambda s: ([w(s, b'1')], [[w(s, b'1')], [s.query('A', b'1'), s.query('A', b'1')], [s.query('A', b'1')]]))
        add('own writes are seen', lambda s: ([], [[w(s, b'1'), s.query('A', b'1')], [w(s, b'1'), s.query('A', b'1')]]))
        add('own quiet writes are seen', lambda s: ([], [[w(s, b'1', quiet=True), s.query('A', b'1', full=True)], [w(s, b'1', quiet=True), s.query('A', b'1', full=True)]]))
        add('quiet writes to two collations', lambda s: ([w(s, b'1', quiet=True)], [[w(s, b'1', quiet=True), s.query('A', b'1', full=True)], [w(s, b'1'), s.query('D', b'1', full=True)]]), 'DA')
        add('query during a batch', lambda s: ([], [[s.post(s.row(b'1'), s.row(b'1'), s.row(b'1'))], [s.query('A', b'1'), s.query('A', b'1')]]))
        add('query of another record', lambda s: ([w(s, b'2')], [[w(s, b'1')], [s.query('A', b'2'), s.query('A', b'3')]]))
        add('query while rejected', lambda s: ([w(s, b'1')], [[s.post(s.row(b'1', bad=True)), w(s, b'1')], [s.query('A', b'1'), s.query('A', b'1')]]))
        add('query while creation is rejected', lambda s: ([], [[s.post(s.row(b'1', bad=True))], [s.query('A', b'1'), w(s, b'1'), s.query('A', b'1')]]))
        add('three collations', lambda s: ([], [[w(s, b'1', b'1')], [s.query('B', b'1', b'1'), s.query('C')]]), 'ABC')
        for p in (11, 13):
            add('records of %d bytes' % (2 ** p * 3 // 4), lambda s: ([w(s, b'1')], [[w(s, b'1'), w(s, b'1')], [s.query('A', b'1', full=True), s.query('A', b'1', full=True)]]), yprec=p)
        add('long records', lambda s: ([w(s, b'1')], [[w(s, b'1')], [s.query('A', b'1'), s.query('A', b'1')]]))
    return out


def some(rng, queries, strats, wire=False, big=False, ms=4000):
    s = Scenario(rng, 'random', rng.choice(['A', 'AB', 'ABC', 'C', 'CA', 'D', 'DA', 'BD', 'E'] if rng.random() < .4 else ['A', 'AB', 'ABC', 'C', 'CA', 'D', 'DA', 'BD']), yprec=rng.choice([4, 4, 5, 6, 8]) if not big else None)
    quiet = rng.choice([0, 0, .3, .7])
    avals = rng.choice([[b'1'], [b'1', b'2'], [b'1', b'2', b'longer value']])

    def row():
        return s.row(rng.choice(avals) if rng.random() < .9 else None, rng.choice([b'1', b'2']) if rng.random() < .7 else None, rng.random() < .8,
                     rng.random() < .12, rng.random() < quiet or len(s.obs) > 22)

    def op():
        if queries and rng.random() < .5:
            return s.query(rng.choice(s.which), rng.choice(avals), rng.choice([b'1', b'2']))
        if sent and rng.random() < .4:
            return s.resend(rng.choice(sent))
        lines = [row() for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < .1:
            lines.insert(rng.randint(0, len(lines)), None)
        o = s.post(*lines)
        if s.which == 'D' or all(i is None or not any(f == b'x' for f, _ in s.obs[i]) for i in lines):
            sent.append(o)
        return o
    sent = []
    pre = [op() for _ in range(rng.choice([0, 0, 1, 2]))]
    n = rng.choice([2, 3, 3, 4]) if not big else rng.choice([4, 6, 8])
    threads = []
    for _ in range(n):
        th = []
        for _ in range(rng.randint(1, 3 if not big else 6)):
            if len(s.obs) < 20:
                th.append(op())
            elif queries:
                th.append(s.query(rng.choice(s.which), rng.choice(avals), rng.choice([b'1', b'2'])))
        threads.append(th)
    return s.case(threads, pre, strats=strats, wire=wire, ms=ms)


def scheduled(ctx, num, queries):
    """Requests and schedules that TLC's simulator takes from StarbowConc."""
    out = []
    for procs in (2, 3):
        rc, text, gen, dist = ctx.tlc('StarbowConc', 'SPECIFICATION Spec\nCONSTANTS Procs={%s} Variant="none" Emit=TRUE Family="random"\nINVARIANTS Consistent ExactlyOnce Emitted\n'
                                      % ','.join(str(i + 1) for i in range(procs)), workers=1,
                                      args=('-simulate', 'num=%d' % num, '-depth', '300', '-seed', str(ctx.seed)))
        if rc != 0:
            raise CheckError('simulation of StarbowConc: ' + text[-2000:])
        seen = set()
        for m in re.finditer(r'^"?RUN (\{.*\})"?$', text, re.M):
            if m.group(1) in seen:
                continue
            seen.add(m.group(1))
            r = json.loads(m.group(1).replace('\\"', '"'))
            s = Scenario(random.Random(len(out) + ctx.seed), 'schedule from the model', 'ABC')
            val = lambda v: v.encode() or None
            if sum(len(q['lines']) for prog in r['prog'] for q in prog) > 25:
                continue
            threads = [[s.query('ABC'[q['rec'][0] - 1], *[v.encode() for v in q['rec'][1:]]) if q['op'] == 'query' else
                        s.post(*[s.row(val(o['a']), val(o['b']), bad=o['bad']) for o in q['lines']]) for q in prog] for prog in r['prog']]
            out.append(s.case(threads, strats=[{'kind': 'list', 'n': 1, 'lists': [[p - 1 for p in r['sched']]]}, conc.pct(3, 10, len(out), True)]))
    if not out:
        raise CheckError('simulation of StarbowConc printed nothing')
    ctx.notes.append('%d programs and schedules generated by TLC -simulate from StarbowConc and run on the real server' % len(out))
    return out
