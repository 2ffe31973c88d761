"""Histories of requests on the server: generators, execution, and the traces TLC checks."""
import json, random, re, struct, zlib
from fractions import Fraction
from urllib.parse import quote, quote_from_bytes
from infra import *

PRECISE = ['count', 'sum', 'mean', 'var', 'max', 'min']
UNIQ = ['uniquecount']
HEX = re.compile(rb'^[+-]?0[xX]([0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)[pP][+-]?\d+$')
DEC = re.compile(rb'^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$')
SPECIAL = {b'nan': 'nan', b'inf': 'pinf', b'+inf': 'pinf', b'-inf': 'ninf', b'infinity': 'pinf', b'+infinity': 'pinf',
           b'-infinity': 'ninf'}


def number(b):
    """The float64 a text denotes as {k, v}, or None."""
    if b.lower() in SPECIAL:
        return {'k': SPECIAL[b.lower()], 'v': '0'}
    if HEX.match(b):
        try:
            x = float.fromhex(b.decode())
        except OverflowError:
            return None
    elif DEC.match(b):
        x = float(b)
    else:
        return None
    if x in (float('inf'), float('-inf')):
        return None                     # out of range
    f = Fraction(x)
    return {'k': 'num', 'v': str(f)}


def b2(x):
    return x.encode() if isinstance(x, str) else x


def schema(name, keys=(), rows=('count',), measures=(), slots=997):
    """measures: list of (field, [measure or (measure, precision)])."""
    return {'name': enc(name), 'keys': [enc(k) for k in keys], 'rows': list(rows), 'slots': slots,
            'measures': [{'f': enc(f), 'ms': [{'m': m, 'p': 0} if isinstance(m, str) else {'m': m[0], 'p': m[1]} for m in ms]}
                         for f, ms in measures]}


def pairs_of(s, stray=False):
    """All pairs the schema defines, in some order, as encoded names."""
    out = [('count', '*')] if s['rows'] else []
    for g in s['measures']:
        for m in g['ms']:
            if (m['m'], g['f']) not in out:
                out.append((m['m'], g['f']))
    return out


class Hist:
    """A history on a fresh server."""

    def __init__(self, stores, concat=False, kind='', repeat=.12):
        self.stores, self.concat, self.kind = stores, concat, kind
        self.repeat = repeat            # how often requests are sent again, byte by byte
        self.rnd = random.Random(repr(stores) + kind)
        self.hd = random.Random('headers ' + repr(stores) + kind)
        self.extra = True
        self.asked = []
        self.ops, self.mk = [], []
        self.seen = [{} for _ in stores]
        self.nums = {}
        self.demo = False
        self.twin = None
        self.stats = {}

    # -- rows are lists of (name, value) in bytes
    def safe(self, row):
        """False if the row has the same concatenated key as a different tuple (known finding of C02)."""
        d = {}
        for f, v in row:
            d.setdefault(enc(f), enc(v))
        for i, s in enumerate(self.stores):
            if len(s['keys']) > 1 and all(k in d for k in s['keys']):
                tup = tuple(d[k] for k in s['keys'])
                cat = ''.join(k + d[k] for k in s['keys'])
                if self.seen[i].setdefault(cat, tup) != tup:
                    return False
        return True

    def fields(self, row):
        out = []
        for f, v in row:
            if len(v) > 300 and f.startswith(b'pad'):
                v = v[:20]              # no collation has a field of that name
            e = enc(v)
            if e not in self.nums:
                n = number(v)
                if n:
                    self.nums[e] = n
            out.append({'f': enc(f), 'v': e})
        return out

    def add(self, op, mk, writes=False, asks=False):
        self.ops.append(op)
        self.mk.append(mk)
        me = len(self.ops) - 1
        if asks:
            self.asked.append(me)
        if writes and self.rnd.random() < self.repeat:
            for _ in range(self.rnd.choice([1, 1, 2, 5])):
                if self.asked and self.rnd.random() < .4:
                    self.again(self.rnd.choice(self.asked[-8:]))
                self.again(me)
        if (writes or asks) and self.asked and self.rnd.random() < self.repeat:
            self.again(self.rnd.choice(self.asked[-8:]))
        return me

    def again(self, k):
        """The operation k, which is no cancelled one, once more."""
        self.ops.append(self.ops[k])
        self.mk.append(self.mk[k])
        return len(self.ops) - 1

    def http(self, method, target, ct, body, base, chunks=None, wire=False, cancel=None, how=None):
        op = {'Op': 'http', 'Method': method, 'Target': target, 'CT': ct, 'Body': enc(body), 'Chunks': chunks or [], 'Wire': wire}
        if cancel:
            op['Cancel'] = cancel
        op.update(how or {})
        if self.extra:
            embellish(op, self.hd)

        def mk(r):
            ev = dict(base)
            ev.update(e='http', m=method, status=r['status'], nc=r['nc'], resp=r['lines'], tail=r['tail'])
            return ev
        return self.add(op, mk, base['route'] == 'obs', base['route'] == 'coll')

    def obs(self, lines, ct=None, method='POST', wrap=None, ctc='octet', chunks=None, wire=False, nodata=False, sep=b'\n', final=True,
            body=None, rowmode=True, bodylines=None, target='/obs', cutat=None, how=None, route='obs'):
        """lines: list of (text, row or None if the line is bad); cutat: how many bytes of the body arrive."""
        if rowmode and body is None and wrap is None and cutat is None and lines:
            lines = doubled(lines)
        text = sep.join(t for t, _ in lines) + (sep if final and lines else b'') if body is None else body
        base = {'route': route, 'ct': ctc, 'nodata': nodata, 'name': '', 'nested': False, 'qok': True, 'bytes': not rowmode, 'broken': cutat is not None}
        how = dict(how or {})
        if cutat is not None and ctc == 'form':
            how['Break'] = True
            base.update(nodata=True, lines=[])
            return self.http(method, target, ct, (b'data=' + quote_from_bytes(text, safe='').encode())[:cutat], base, chunks, False, how=how)
        if cutat is not None:
            how['Break'] = True
            n = 0
            whole = []
            for x in lines:
                n += len(x[0]) + len(sep)
                if n <= cutat:
                    whole.append(x)
            if not final and len(whole) == len(lines):
                whole.pop()
            lines = whole
            text = text[:cutat]
        if rowmode:
            base['lines'] = [{'ok': r is not None, 'row': self.fields(r or [])} for _, r in lines]
        else:
            base['body'] = bodylines
        if ctc == 'form':
            data = b'' if nodata else b'data=' + quote_from_bytes(text, safe='').encode()
            text = data if wrap is None else wrap
        if wire and cutat is not None:
            # the client is gone: any part of the complete lines
            ev = {'e': 'cut', 'lines': base['lines'], 'lo': 0, 'hi': len(lines) * len(self.stores)}
            op = {'Op': 'http', 'Method': method, 'Target': target, 'CT': ct, 'Body': enc(text), 'Chunks': [], 'Wire': True, **how}
            return self.add(op, lambda r: dict(ev, status=r['status']))
        return self.http(method, target, ct, text, base, chunks, wire, how=how)

    def post(self, rows, rng, **kw):
        """Post valid-looking rows with a random separator, media type and chunking."""
        lines = [(line(r, rng), r) for r in rows]
        return self.obs(lines, **{**media(rng), **kw})

    def query(self, name, sel, crit, rng=None, text=None, method=None, qok=True, variant=None, wire=False, ct=None, nested=False,
              target=None, how=None, route='coll'):
        if text is None:
            text = qtext(sel, crit, rng if variant is None else variant)
        rng = rng or random.Random(0)
        base = {'route': route, 'ct': 'plain', 'broken': False, 'bytes': False, 'nodata': False, 'name': enc(name), 'nested': nested, 'qok': qok,
                'sel': [{'m': enc(m), 'f': enc(f)} for m, f in sel],
                'crit': [{'f': enc(f), 'v': enc(v)} for f, v in crit]}
        method = method or rng.choice(['GET', 'GET', 'POST'])
        q = quote_from_bytes(text, safe='')
        path = '/collation/' + quote_from_bytes(b2(name), safe='/' if nested else '') if target is None else target
        if method == 'POST' and rng.random() < .5:
            return self.http(method, path, 'application/x-www-form-urlencoded', b'q=' + q.encode(), base, wire=wire, how=how)
        if method == 'POST' and rng.random() < .1 and b'xYz' not in text and (text or rng.random() < .5):
            body = b'--xYz\r\nContent-Disposition: form-data; name="q"\r\n\r\n' + text + b'\r\n--xYz--\r\n'
            return self.http(method, path, 'multipart/form-data; boundary=xYz', body, base, wire=wire, how=how)
        if text:
            path += '?q=' + q
        if ct is None and rng.random() < .1:
            ct = rng.choice(['text/plain', 'application/json', 'text/html', 'application/octet-stream', 'image/png'])
        return self.http(method, path, ct, b'', base, wire=wire, how=how)

    def read(self, i, sel, crit):
        base = {'e': 'read', 'i': i + 1, 'sel': [{'m': enc(m), 'f': enc(f)} for m, f in sel],
                'crit': [{'f': enc(f), 'v': enc(v)} for f, v in crit]}
        op = {'Op': 'read', 'I': i, 'Sel': [[enc(m), enc(f)] for m, f in sel], 'Crit': [[enc(f), enc(v)] for f, v in crit]}
        return self.add(op, lambda r: dict(base, status=r['status'], resp=r['lines'], tail=r['tail']), asks=True)

    def write(self, i, row, live=True, deadline=False):
        base = {'e': 'write', 'i': i + 1, 'row': self.fields(row), 'live': live}
        op = {'Op': 'write', 'I': i, 'Row': [[enc(f), enc(v)] for f, v in row]}
        if not live:
            op['Cancel'] = {'When': 'before', 'Deadline': deadline}
        return self.add(op, lambda r: dict(base, res=r['res']), writes=live)

    def fill(self, i, row, f, fam, lo, hi, mode):
        n = hi - lo + 1
        base = {'e': 'fill', 'i': i + 1, 'row': self.fields(row), 'f': enc(f), 'fam': enc(fam), 'lo': lo, 'hi': hi,
                'n': n + n // 2 if mode == 'mix' else n}
        op = {'Op': 'fill', 'I': i, 'Row': [[enc(a), enc(b)] for a, b in row], 'F': enc(f), 'Fam': enc(fam), 'Lo': lo, 'Hi': hi, 'Mode': mode}
        return self.add(op, lambda r: dict(base, res=r['res']))

    def many(self, i, row, n):
        """n observations that are the same."""
        base = {'e': 'many', 'i': i + 1, 'row': self.fields(row), 'n': n}
        op = {'Op': 'many', 'I': i, 'Row': [[enc(a), enc(b)] for a, b in row], 'Hi': n}
        return self.add(op, lambda r: dict(base, res=r['res']))

    def bulk(self, row, n, rng, ct='text/plain', wire=False):
        """A batch of n lines that are the same."""
        op = {'Op': 'http', 'Method': 'POST', 'Target': '/obs', 'CT': ct, 'Body': enc(line(row, rng) + b'\n'), 'Times': n, 'Chunks': [], 'Wire': wire}
        base = {'e': 'bulk', 'row': self.fields(row), 'n': n}
        return self.add(op, lambda r: dict(base, status=r['status'], nc=r['nc']))

    def canary(self, i, rows):
        op = {'Op': 'canary', 'I': i, 'Rows': [[[enc(f), enc(v)] for f, v in r] for r in rows]}
        return self.add(op, lambda r: {'e': 'canary', 'res': r['res']})

    def cut(self, lines, cancel, lo, hi, chunks=None, sep=b'\n'):
        text = sep.join(t for t, _ in lines) + sep
        ev = {'e': 'cut', 'lines': [{'ok': True, 'row': self.fields(r)} for _, r in lines], 'lo': lo, 'hi': hi}
        op = {'Op': 'http', 'Method': 'POST', 'Target': '/obs', 'CT': 'text/plain', 'Body': enc(text), 'Chunks': chunks or [], 'Wire': False,
              'Cancel': cancel}
        return self.add(op, lambda r: dict(ev, status=r['status']))

    def same(self, a, b, skip=(0, 0), twin=None):
        """Responses a and b (operation numbers; b of the twin history if given) must be identical after skip lines."""
        self.ops.append(None)
        self.mk.append(('same', a, b, skip, twin))
        return len(self.ops) - 1

    def spread(self, at, bound='5/2'):
        """The estimates read by the operations at (single ones, of records that have not changed since) are not too far off on average."""
        self.ops.append(None)
        self.mk.append(('spread', at, bound))
        return len(self.ops) - 1

    def query_all(self, i, crit, rng, how=None, sel=None):
        s = self.stores[i]
        sel = sel or [(dec(m), dec(f)) for m, f in pairs_of(s)]
        how = how or rng.choice(['http', 'http', 'read'])
        ok = all(v and b"'" not in v and b'\n' not in v and b'\r' not in v and f and not re.search(rb"[\s='()]", f) for f, v in crit) and crit and all(f and not re.search(rb'[\s,()]', f) for _, f in sel)
        if how == 'http' and ok and sel:
            return self.query(dec(s['name']), sel, crit, rng)
        return self.read(i, sel, crit)


def dec(s):
    return re.sub(rb'%([0-9A-F]{2})', lambda m: bytes([int(m.group(1), 16)]), s.encode())


def doubled(lines):
    """Sometimes a line more than once; which ones depends on nothing but the lines."""
    rng = random.Random(zlib.crc32(b'\n'.join(t for t, _ in lines)))
    if rng.random() < .8:
        return lines
    lines = list(lines)
    for _ in range(rng.choice([1, 1, 3])):
        i = rng.randrange(len(lines))
        lines.insert(i if rng.random() < .7 else rng.randint(0, i), lines[i])
    return lines


# headers that are none of the API's business
HEADERS = [('Accept', ['*/*', 'application/json', 'text/html,application/xhtml+xml;q=0.9', 'image/png', 'text/plain;q=0.1']), ('Accept-Language', ['de', 'fr-CH, en;q=0.8']),
           ('Accept-Charset', ['iso-8859-1', 'utf-8']), ('User-Agent', ['curl/8.0', 'Mozilla/5.0 (bot)', '']), ('Referer', ['http://elsewhere/']), ('Origin', ['http://elsewhere', 'null']),
           ('Cookie', ['a=b; c=d']), ('Authorization', ['Basic YTpi', 'Bearer x']), ('X-Forwarded-For', ['10.0.0.1']), ('X-Forwarded-Proto', ['https']),
           ('X-HTTP-Method-Override', ['DELETE', 'GET', 'PUT']), ('X-Requested-With', ['XMLHttpRequest']), ('If-None-Match', ['*', '"x"']),
           ('If-Match', ['"x"']), ('If-Modified-Since', ['Fri, 31 Dec 2100 23:59:59 GMT']), ('If-Unmodified-Since', ['Fri, 31 Dec 1999 23:59:59 GMT']), ('Cache-Control', ['max-age=3600', 'only-if-cached', 'no-store']), ('Pragma', ['cache']),
           ('Content-Language', ['de']), ('Content-Disposition', ['attachment']), ('X-Request-Id', ['7', '7', '8']), ('Date', ['Tue, 15 Nov 1994 08:12:31 GMT']),
           ('Idempotency-Key', ['7', '8']), ('Host', ['localhost', 'example.com:80']), ('DNT', ['1']), ('Upgrade-Insecure-Requests', ['1'])]


def embellish(op, rng):
    """What makes no difference to a request: other headers, other parameters of the query."""
    if rng.random() < .3:
        op['Headers'] = [[k, rng.choice(v)] for k, v in rng.sample(HEADERS, rng.choice([1, 1, 2, 5]))]
    if rng.random() < .1 and '#' not in op['Target'] and '%00' not in op['Target']:
        t = rng.choice(['x=1', 'format=json', 'limit=1', 'pretty', 'n=2&m=3', 'callback=f'])
        a, q, b = op['Target'].partition('?')
        if not q:
            op['Target'] = a + '?' + t
        elif b.startswith('q='):
            op['Target'] = a + '?' + rng.choice([t + '&' + b, b + '&' + t])


def media(rng):
    k = rng.random()
    if k < .3:
        d = {'ct': rng.choice(['text/plain', 'text/plain; charset=utf-8', 'Text/Plain']), 'ctc': 'plain'}
    elif k < .5:
        d = {'ct': rng.choice(['application/octet-stream', 'APPLICATION/octet-stream']), 'ctc': 'octet'}
    elif k < .7:
        d = {'ct': None, 'ctc': 'octet'}
    else:
        d = {'ct': rng.choice(['application/x-www-form-urlencoded', 'application/x-www-form-urlencoded; charset=utf-8']), 'ctc': 'form'}
    if rng.random() < .3:
        d['chunks'] = [rng.randint(1, 30) for _ in range(rng.randint(1, 4))]
    d['sep'] = rng.choice([b'\n', b'\n', b'\r\n'])
    d['final'] = rng.random() < .7
    if rng.random() < .1:
        d['wire'] = True
    if rng.random() < .3:
        d['how'] = rng.choice([{'Zero': True}, {'With': True}, {'Zero': True, 'With': True}, {'Proto': '1.0'}])
    return d


def line(row, rng, delims=b'|\t;,~ \x01'):
    """Text of an observation, with a delimiter that does not occur in it."""
    used = set(b''.join(f + v for f, v in row))
    ds = [d for d in delims if d not in used] or [d for d in range(1, 256) if d not in used and d not in b'\r\n0123456789=']
    d = bytes([rng.choice(ds)])
    ts = str(rng.choice([1478566442000000, 0, 7, rng.randint(0, 2**63 - 1), 10**18])).encode()
    return ts + b''.join(d + f + (b'=' + v if v or rng.random() < .5 else b'') for f, v in row)


def ws(rng, least=0):
    return b''.join(rng.choice([b' ', b' ', b'\t', b'  ']) for _ in range(rng.randint(least, least + 1)))


def case(rng, w):
    k = rng.random()
    return w if k < .4 else w.upper() if k < .6 else w.capitalize() if k < .8 else bytes(rng.choice([c, c ^ 32]) for c in w)


def qtext(sel, crit, rng=None):
    """Text of a query; random white space and letter case if rng is given."""
    sels = [b2(m) + b'(' + b2(f) + b')' for m, f in sel]
    crits = [b2(f) + b"='" + b2(v) + b"'" for f, v in crit]
    if rng is None:
        return b'select ' + b', '.join(sels) + b' where ' + b' and '.join(crits)
    out = ws(rng) + case(rng, b'select') + ws(rng, 1)
    for i, s in enumerate(sels):
        out += (ws(rng) + b',' + ws(rng) if i else b'') + s
    out += ws(rng, 1) + case(rng, b'where') + ws(rng, 1)
    for i, c in enumerate(crits):
        out += (rng.choice([ws(rng, 1) + case(rng, b'and') + ws(rng, 1), ws(rng, 1) + b'and' + ws(rng, 1), ws(rng, 1)]) if i else b'') + c
    return out + ws(rng)


# ------------------------------------------------------------------------
def execute(ctx, binary, hists, ms, module='StarbowTrace', timeout=300):
    """Run the histories and have TLC check them.  Raises Violation for a rejected one."""
    cases, everything = [], []
    for h in hists:
        everything.append(h)
        if h.twin:
            everything.append(h.twin)
    for i, h in enumerate(everything):
        h.id = i
        cases.append({'id': i, 'Stores': h.stores, 'Ops': [o for o in h.ops if o is not None]})
    res = ctx.run_cases(binary, cases, timeout=timeout)
    judge(ctx, hists, everything, res, ms, cases)


def judge(ctx, hists, everything, res, ms, cases, module='StarbowTrace'):
    nums = {}
    for h in everything:
        nums.update(h.nums)
        if h.id not in res:
            raise CheckError('no result for case %d' % h.id)
        r = res[h.id]
        h.results = {}
        it = iter(r.get('results', []))
        dead = None
        for k, o in enumerate(h.ops):
            if o is None:
                continue
            try:
                h.results[k] = next(it)
            except StopIteration:
                break
        h.crash = r.get('crash')
    traces = []
    for h in hists:
        ev = []
        for k, o in enumerate(h.ops):
            if o is None and h.mk[k][0] == 'spread':
                if any(a >= len(ev) for a in h.mk[k][1]):
                    raise CheckError('missing estimate')
                ev.append({'e': 'spread', 'at': [a + 1 for a in h.mk[k][1]], 'bound': h.mk[k][2]})
                continue
            if o is None:
                _, a, b, skip, twin = h.mk[k]
                src = h.twin if twin else h
                if a not in h.results or b not in src.results:
                    if src.crash or any(x['bad'] for x in src.results.values()):
                        ev.append({'e': 'crash'})
                        break
                    raise CheckError('missing response')
                ev.append({'e': 'same', 'a': [x['raw'] for x in h.results[a]['lines']][skip[0]:],
                           'b': [x['raw'] for x in src.results[b]['lines']][skip[1]:]})
                continue
            if k not in h.results:
                ev.append({'e': 'crash' if h.crash else 'lost'})
                if not h.crash:
                    raise CheckError('lost response in case %d' % h.id)
                break
            r = h.results[k]
            if r['bad']:
                ev.append({'e': r['bad']})
                break
            ev.append(h.mk[k](r))
        h.ev = ev
        traces.append({'cfg': {'stores': h.stores, 'ms': ms, 'concat': h.concat, 'demo': h.demo}, 'ev': ev})
    bad = ctx.validate(module, {'traces': traces, 'chars': CHARS, 'num': nums or {'0': {'k': 'num', 'v': '0'}}})
    if not ctx.samples:
        for h in hists[:2]:
            ctx.samples.append({'stores': [s['name'] + str(s['keys']) for s in h.stores], 'events': h.ev[:4]})
    if bad:
        t, l, out = bad
        h = hists[t]
        raise Violation('history %d (%s): event %d is not a behaviour of the specification: %s' %
                        (t, h.kind, l, json.dumps(h.ev[l] if l < len(h.ev) else None)[:1500]),
                        {'kind': h.kind, 'case': cases[h.id], 'trace': traces[t], 'rejected_event': l,
                         'result': [x for x in h.results.values()][-3:], 'crash': h.crash, 'tlc': out[-2500:]})
    return traces
