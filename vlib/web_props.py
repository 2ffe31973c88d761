"""Histories for the properties decided on the server as a whole."""
import os
from web import *

NUM_TEXTS = [b'0', b'1', b'-1', b'2', b'10', b'0.1', b'-0.1', b'0.25', b'1e3', b'-54', b'9078', b'5.', b'.5', b'+7', b'-0', b'1e-7',
             b'123456789', b'1000000000.5', b'1e15', b'-1e15', b'3.141592653589793', b'1e100', b'-1e100', b'1e-100', b'2e300',
             b'-2e300', b'5e-324', b'1.7976931348623157e308', b'0001', b'1E2']
LONG_TEXTS = [b'9999999999999999999', b'18446744073709551616', b'9223372036854775807', b'9223372036854775808', b'-9223372036854775809', b'9007199254740993',
              b'123456789012345678901234567890', b'0' * 300 + b'5', b'0.' + b'0' * 300 + b'1', b'1' + b'0' * 200, b'0.1000000000000000055511151231257827021181583404541015625',
              b'3.' + b'14159265' * 30, b'1e-400', b'-1e-400', b'0e999999', b'0x1p-2', b'0X1.8P3', b'-0x.8p1', b'0x1.fffffffffffffp10', b'4.9e-324', b'2.5e-324',
              b'2.4703282292062327208e-324', b'1.00000000000000011102230246251565404236316680908203125', b'1.00000000000000011102230246251565', b'8.5e22', b'1e23',
              b'010', b'0755', b'-017', b'00', b'08', b'0000000000123', b'+010', b'010.5', b'0e1', b'010e2', b'0.000001', b'1000000', b'1000001', b'100000000', b'21474836480', b'-2147483649', b'4294967297', b'16777217', b'1e21', b'123456.7890123']


def numtext(rng, style):
    k = rng.random()
    if style == 'int':
        return str(rng.randint(-100, 100)).encode()
    if style == 'small':
        return rng.choice([b'0', b'0', b'-0', b'1', b'-1', b'0.0', b'2', b'-3', b'+0', b'0e5'])
    if style == 'neg':
        return str(-rng.randint(1, 1000)).encode()
    if style == 'offset':
        return repr(1e9 + rng.randint(0, 1000) / 64.0).encode()
    if style == 'float':
        return repr(rng.uniform(-1, 1) * 10 ** rng.randint(-12, 12)).encode()
    if style == 'wide':
        return repr(rng.uniform(-1, 1) * 10.0 ** rng.randint(-110, 110)).encode()
    if style == 'const':
        return b'0.1'
    if style == 'special':
        return rng.choice([b'NaN', b'nan', b'1', b'-5', b'Inf', b'-inf', b'+Inf', b'7.5', b'-0'])
    if style == 'nan':
        return rng.choice([b'NaN', b'nan', b'NAN', b'-3', b'-2.5', b'4'])
    if style == 'huge':
        return rng.choice([b'4.4e307', b'4e307', b'4.1e307', b'1e308', b'-1e308', b'4e307', b'3.3e307', b'%d' % (10**300), b'1e160', b'-1e200', b'1', b'-4e307'])
    if style == 'large':
        return rng.choice([b'4.4e307', b'4e307', b'4.1e307', b'1e307', b'3.33e307', b'%d' % (44 * 10**306)])
    if style == 'tiny':
        return rng.choice([b'1e-308', b'-1e-308', b'5e-324', b'1e-310', b'-3e-320', b'1e-200', b'2e-323', b'0', b'4e-309'])
    if style == 'zeros':
        return b'%s%s%d' % (rng.choice([b'', b'', b'-', b'+']), b'0' * rng.randint(0, 4), rng.choice([rng.randint(0, 99), rng.randint(0, 10**6)]))
    if style == 'long':
        return rng.choice(LONG_TEXTS)
    return rng.choice(NUM_TEXTS)


def padded(rng, row, many):
    """The row among fields that no collation knows."""
    for i in range(rng.choice([1, 3, 10, 30, many])):
        n = rng.choice([b'pad%d', b'P%d', b'f%d', b'pad-with-a-rather-long-name-that-goes-on-and-on-%d', b'pad%d' + b'x' * 200]) % i
        row.append((n, rng.choice([b'', b'1', b'x', b'p' * 300, b'%d' % rng.randint(0, 1 << 40)])))
    rng.shuffle(row)
    return row


SMALL = [b'-1', b'0', b'1', b'NaN', None, b'-0', b'2', b'-2', b'0.5', b'1e-300', b'5e-324', b'-5e-324', b'1e300', b'-1e300', b'1000000007']


def c01_every(rng, n):
    """Records that get every sequence of n values of a small alphabet (None: the field is absent)."""
    import itertools
    alphabet = SMALL[:5] if n > 3 else SMALL[:4] + [None] + rng.sample(SMALL[5:], 2) if n > 2 else SMALL
    seqs = list(itertools.product(alphabet, repeat=n))
    rng.shuffle(seqs)
    h = Hist([schema('c', [b'k'], ['count'], [(b'v', ['sum', 'mean', 'var', 'max', 'min'])], slots=9973)], kind='every series of %d small values' % n)
    seqs = seqs[:260]
    for i, s in enumerate(seqs):
        k = b'r%d' % i
        rows = [[(b'k', k)] + ([(b'v', v)] if v is not None else []) for v in s]
        for r in rows:
            rng.shuffle(r)
        if rng.random() < .3:
            for r in rows:
                h.write(0, r)
        else:
            h.post(rows, rng)
        h.query_all(0, [(b'k', k)], rng)
    return h


STYLES = ['huge', 'large', 'tiny', 'zeros', 'long', 'int', 'small', 'neg', 'offset', 'float', 'wide', 'const', 'special', 'nan', 'mixed']
SIMPLE_KEYS = [b'fr', b'uk', b'a', b'b', b'1', b'12', b'2', b'x y', b'Z\xc3\xbcrich', b'United States', b'fr ']


def measures(rng, fields, prec=None):
    out = []
    for f in fields:
        ms = rng.sample(['sum', 'mean', 'var', 'max', 'min'], rng.randint(1, 5))
        if prec and rng.random() < .4:
            ms.insert(rng.randint(0, len(ms)), ('uniquecount', rng.choice(prec)))
        out.append((f, ms))
    return out


def c01(rng, nops):
    """Random histories over one to three collations with numeric measures."""
    style = rng.choice(STYLES)
    fields = rng.sample([b'h', b'w', b'height', b'x', b'price', b'H', b'*', b'count'], rng.randint(1, 3))
    stores = []
    for n in range(rng.randint(1, 3)):
        keys = rng.choice([[b'k'], [b'k'], [b'k', b'l'], [], [b'l']])
        stores.append(schema('c%d' % n, keys, rng.choice([['count'], ['count'], []]),
                             measures(rng, rng.sample(fields, rng.randint(1, len(fields))), [4, 10])))
    h = Hist(stores, kind='statistics, values ' + style)
    many = rng.choice([0, 0, 0, 0, 20, 70, 300])
    kv = rng.sample(SIMPLE_KEYS, 3)
    seen = []

    def row():
        r = []
        if rng.random() < .95:
            r.append((b'k', rng.choice(kv)))
        if rng.random() < .8:
            r.append((b'l', rng.choice(kv)))
        for f in fields:
            if rng.random() < .7:
                r.append((f, numtext(rng, style)))
        if rng.random() < .2:
            r.append((b'other', b'not a number'))
        rng.shuffle(r)
        return padded(rng, r, many) if many and rng.random() < .5 else r

    def ask():
        i = rng.randrange(len(stores))
        crit = [(dec(k), rng.choice(kv)) for k in stores[i]['keys']] or [(b'z', b'z')]
        if h.safe(crit):
            rng.shuffle(crit)
            h.query_all(i, crit, rng)

    for _ in range(nops):
        rows = [r for r in (row() for _ in range(rng.choice([1, 1, 1, 2, 5]))) if h.safe(r)]
        if rng.random() < .15 and rows:
            h.write(rng.randrange(len(stores)), rows[0])
        else:
            h.post(rows, rng)
        if rng.random() < .4:
            ask()
    for i, s in enumerate(stores):
        seen = set()
        import itertools
        for vals in itertools.product(kv, repeat=len(s['keys'])):
            crit = [(dec(k), v) for k, v in zip(s['keys'], vals)] or [(b'z', b'z')]
            if h.safe(crit):
                h.query_all(i, crit, rng)
    return h


def c01_long(rng, n):
    """One record, many observations in batches, queried now and then."""
    style = rng.choice(['offset', 'float', 'int', 'const', 'neg'])
    h = Hist([schema('c', [b'k'], ['count'], [(b'v', ['sum', 'mean', 'var', 'max', 'min'])])], kind='long series ' + style)
    left = n
    while left > 0:
        m = min(left, rng.choice([10, 50, 100]))
        h.post([[(b'k', b'1'), (b'v', numtext(rng, style))] for _ in range(m)], rng)
        left -= m
        h.query_all(0, [(b'k', b'1')], rng)
    return h


ODD = [b'', b'a', b'aa', b'1', b'11', b'12', b'2', b' ', b'a ', b'=', b'a=b', b'\x00', b'\xff', b'k', b'fr', b'0', b'A', b'\xc3\xa9', b"'", b'a\rb',
       b'\n', b'long' * 50]


def c02(rng, nops, names=None):
    """Collations with zero to three keys; key values that are empty, prefixes, shifted, odd bytes."""
    names = names or rng.choice([[b'a', b'b', b'c'], [b'k', b'key', b'keyx'], [b'country', b'tz', b'x y'], [b'A', b'a', b'\xc3\xa4'],
                                 [b'', b'q', b'qq'], [b'k%d' % i for i in range(8)], [b'a' * 100, b'a' * 101, b'a' * 99 + b'b', b'a' * 300]])
    many = rng.choice([0, 0, 0, 0, 0, 30, 300])
    pools = rng.choice([[b'1', b'12', b'2', b'23', b'3', b'', b'123'], ODD, [b'', b'-', b'--', b'---'], [b'X', b'x', b'X ', b' X']])
    stores = []
    for n in range(rng.choice([1, 2, 3, 4, 1, 2, 3, 4, 12])):
        ks = rng.sample(names, rng.randint(0, len(names)))
        if rng.random() < .5:
            ks.sort()
        stores.append(schema('c%d' % n, ks, ['count'], [(b'n', ['sum'])] if rng.random() < .5 else []))
    h = Hist(stores, kind='routing')

    def row(direct):
        r = []
        for k in names:
            if rng.random() < .85:
                v = rng.choice(pools)
                if not direct:
                    v = v.replace(b'\n', b'_').replace(b'\r', b'_')
                r.append((k, v))
        if rng.random() < .5:
            r.append((b'n', str(rng.randint(1, 9)).encode()))
        if rng.random() < .3:
            r.append((rng.choice([b'zz', b'a1', b'k=']) if direct else rng.choice([b'zz', b'a1']), b'extra'))
        rng.shuffle(r)
        return padded(rng, r, many) if many and rng.random() < .4 else r

    sent = []
    for _ in range(nops):
        if rng.random() < .5:
            r = row(True)
            if h.safe(r):
                sent.append(r)
                h.write(rng.randrange(len(stores)), r)
        else:
            rows = [r for r in (row(False) for _ in range(rng.choice([1, 2]))) if h.safe(r)]
            h.post(rows, rng)
            sent += rows
        if rng.random() < .5:
            i = rng.randrange(len(stores))
            crit = [x for x in row(True) if x[0] != b'n']
            if h.safe(crit):
                h.query_all(i, crit, rng)
    import itertools
    for i, s in enumerate(stores):
        if len(s['keys']) > 4:
            prods = [tuple(rng.choice(pools) for _ in s['keys']) for _ in range(20)] + [tuple(dict(r)[dec(k)] for k in s['keys']) for r in sent if all(dec(k) in dict(r) for k in s['keys'])]
        else:
            prods = list(itertools.product(pools, repeat=len(s['keys'])))
        rng.shuffle(prods)
        for vals in prods[:25]:
            crit = [(dec(k), v) for k, v in zip(s['keys'], vals)]
            rng.shuffle(crit)
            if h.safe(crit):
                h.query_all(i, crit, rng)
    return h


def c02_known(concat):
    """The known finding: two tuples with the same concatenation."""
    h = Hist([schema('kf', [b'a', b'b'], ['count'])], concat=concat, kind='conflated keys')
    r = random.Random(0)
    h.write(0, [(b'a', b'1'), (b'b', b'2b3')])
    h.write(0, [(b'a', b'1b2'), (b'b', b'3')])
    h.read(0, [(b'count', b'*')], [(b'a', b'1'), (b'b', b'2b3')])
    h.read(0, [(b'count', b'*')], [(b'a', b'1b2'), (b'b', b'3')])
    return h


def conflatable(rng, long=0):
    """Pairs of different texts that a careless program may take for one another."""
    out = []
    base = bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(1100))
    for n in (1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024):
        out.append((base[:n] + b'P', base[:n] + b'Q'))          # common beginning
        out.append((b'P' + base[:n], b'Q' + base[:n]))          # common end
        out.append((base[:n], base[:n] + b'x'))                 # one more byte
        out.append((base[:n], base[:n] + b'\x00'))
        out.append((base[:n] + b'P' + base[:n], base[:n] + b'Q' + base[:n]))    # common ends
    for n in [rng.choice([1500, 2048, 4096]), rng.choice([4096, 5000, 8192, 16384]), rng.choice([16384, 28000])][:long]:
        big = (base * (n // 1000 + 1))[:n]
        out += [(big + b'P', big + b'Q'), (b'P' + big, b'Q' + big), (big + b'P' + big, big + b'Q' + big), (big, big + b'x')]
    w = base[:rng.choice([1, 3, 9])]
    out += [(w, b' ' + w), (w, w + b' '), (w, w + b'\t'), (w, w.upper() if w.upper() != w else w + b'X'), (w.capitalize() + b'q', w.capitalize() + b'Q'),
            (b'1', b'01'), (b'1', b'1.0'), (b'1', b'+1'), (b'0', b'-0'), (b'1e2', b'100'), (b'0', b''), (w, b''), (b'', b' '), (b'', b'\x00'), (b'NaN', b'nan'),
            (w + b'=1', w + b'=2'), (w + b'=', w), (b'=' + w, w), (w + b'|', w), (b'"' + w + b'"', w), (b"'" + w + b"'", w), (w + b'&b', w + b'&c'),
            (w + b'%20x', w + b' x'), (w + b'+x', w + b' x'), (w + b'%3D', w + b'='), (w + b'\xff', w + b'\xfe'), (w + b'\xc3\xa9', w + b'e\xcc\x81'),
            (w + b'\xe9', w + b'\xc3\xa9'), (w + b'\x80', w + b'\xef\xbf\xbd'), (w + b',b', w + b',c'), (w + b'.', w), (w + b'#1', w + b'#2'), (w + b'/a', w + b'/b'),
            (w + b';a', w + b';b'), (w + b'\x00a', w + b'\x00b'), (b'ab', b'ba'), (b'abcabc', b'cbacba'), (w * 2, w * 3), (b'null', b''), (b'true', b'1'), (b'a-b', b'a_b'), (b'9007199254740993', b'9007199254740992')]
    for n in rng.sample(range(1, 1000), 2):
        forms = same_number(n, rng)
        out += [tuple(rng.sample(forms, 2)) for _ in range(8)]
    rng.shuffle(out)
    return out


def same_number(n, rng=None):
    """Texts of the same number."""
    out = [b'%d' % n, b'0%d' % n, b'00%d' % n, b'%d.' % n, b'%d.0' % n, b'%d.00' % n, b'+%d' % n, b'%de0' % n, b'%d0e-1' % n, b'%d00e-2' % n, b'%d.0e0' % n,
           b'%dE0' % n, b'0%d.0' % n, b'%de+0' % n, b'%de00' % n, b'0x%xp0' % n, b'0X%Xp0' % n, b'0x%xp+0' % n, b'0x%x0p-4' % n, b'0x%x' % n, b'0b%s' % bin(n)[2:].encode(),
           b'0o%o' % n, b' %d' % n, b'%d ' % n, b'+0%d' % n, b'%d.%s' % (n, b'0' * 12), b'0' * 18 + b'%d' % n, b'+%d.0' % n, b'000%de0' % n]
    return out


FAMS = [b'p' * 70, b'q' * 300,b'item', b'user-', b'', b'2016-10-', b'LF', b'Airport ', b'http://example.com/', b'\x00\x01', b'aaaaaaaaaaaaaaaa']


def c03_bulk(rng, p, n, records=3):
    """The same n values in different orders and with repetition in several records."""
    h = Hist([schema('u', [b'k'], ['count'], [(b'f', [('uniquecount', p)])], slots=11)], kind='distinct values, precision %d, %d values' % (p, n))
    fam = rng.choice(FAMS)
    lo = rng.choice([0, 1, 1000, 123456])
    sel = [(b'uniquecount', b'f'), (b'count', b'*')]
    q = []
    h.write(0, [(b'k', b'zero')])
    h.read(0, sel, [(b'k', b'zero')])
    for i, mode in enumerate(['up', 'down', 'mix'][:records]):
        k = b'r%d' % i
        if i == 1:                      # in two parts that overlap
            mid = lo + n // 2
            h.fill(0, [(b'k', k)], b'f', fam, mid, lo + n - 1, mode)
            h.read(0, sel, [(b'k', k)])
            h.fill(0, [(b'k', k)], b'f', fam, lo, min(mid + n // 4, lo + n - 1), mode)
        else:
            if i == 2:
                h.write(0, [(b'k', k)])  # record created by an observation without the field
            h.fill(0, [(b'k', k)], b'f', fam, lo, lo + n - 1, mode)
        q.append(h.read(0, sel[:1], [(b'k', k)]))
    for a in q[1:]:
        h.same(q[0], a)
    h.fill(0, [(b'k', b'r0')], b'f', fam, lo, lo + n - 1, 'mix')
    h.same(h.read(0, sel[:1], [(b'k', b'r0')]), q[0])
    return h


def c03_spread(rng, p, n, records):
    """High precisions are worth it."""
    h = Hist([schema('u', [b'k'], ['count'], [(b'f', [('uniquecount', p)])], slots=50)], kind='spread, precision %d, %d values' % (p, n))
    at = []
    for i in range(records):
        k = b'r%d' % i
        lo = rng.choice([0, 1, 1000, 123456]) + i * 1000000
        h.fill(0, [(b'k', k)], b'f', rng.choice(FAMS), lo, lo + n - 1, 'up')
        at.append(h.read(0, [(b'uniquecount', b'f')], [(b'k', k)]))
    h.spread(at)
    return h


def c03(rng, nops):
    """Small sets over HTTP with several unique counts and other measures."""
    ps = [rng.randint(4, 14) for _ in range(2)]
    stores = [schema('a', [b'k'], ['count'], [(b'f', [('uniquecount', ps[0])]), (b'n', ['max', ('uniquecount', ps[1]), 'sum'])], slots=50),
              schema('b', [], ['count'], [(b'g', [('uniquecount', ps[1])]), (b'f', [('uniquecount', ps[0])])], slots=5)]
    h = Hist(stores, kind='distinct values')
    pool = [rng.choice(FAMS[:6]) + str(i).encode() for i in range(rng.choice([2, 5, 30]))]
    if rng.random() < .3:
        pool += [b'', b'1', b'01', b'1.0', b'x' * 300]
    for _ in range(nops):
        rows = []
        for _ in range(rng.choice([1, 3, 10])):
            r = [(b'k', rng.choice([b'1', b'2']))]
            if rng.random() < .7:
                r.append((b'f', rng.choice(pool)))
            if rng.random() < .5:
                r.append((b'g', rng.choice(pool)))
            if rng.random() < .5:
                r.append((b'n', str(rng.randint(0, 30)).encode()))
            rng.shuffle(r)
            rows.append(r)
        h.post(rows, rng)
        if rng.random() < .5:
            h.query_all(0, [(b'k', rng.choice([b'1', b'2', b'3']))], rng)
    for k in (b'1', b'2', b'3'):
        a = h.query_all(0, [(b'k', k)], rng, 'http')
        h.same(a, h.query_all(0, [(b'k', k)], rng, 'http'))
    h.query_all(1, [(b'z', b'z')], rng)
    return h


# texts whose hash is 0, by FNV-1 and FNV-1a
ZERO_HASH = [bytes([0x92, 0x06, 0x77, 0x4c, 0xe0, 0x2f, 0x89, 0x2a, 0xd2]), bytes([0xd5, 0x6b, 0xb9, 0x53, 0x42, 0x87, 0x08, 0x36])]


def c03_pairs(rng):
    """Distinct values that are easily conflated, among few others, in records that must count all of them."""
    p = rng.choice([10, 12, 14])
    h = Hist([schema('u', [b'k'], ['count'], [(b'f', [('uniquecount', p)])], slots=2999)], kind='distinct values easily conflated')
    sel = [(b'uniquecount', b'f'), (b'count', b'*')]
    for i, (a, b) in enumerate(conflatable(rng, 3)):
        k = b'r%d' % i
        for v in (a, b, a):
            if rng.random() < .5 and not set(v) & set(b'\r\n'):
                h.post([[(b'k', k), (b'f', v)]], rng)
            else:
                h.write(0, [(b'f', v), (b'k', k)])
        h.read(0, sel, [(b'k', k)])
    for b in ZERO_HASH:
        h.write(0, [(b'f', b), (b'k', b'zero')])
    h.read(0, sel, [(b'k', b'zero')])
    # many that are the same number, or the same text but for its case or the space around it
    for i, n in enumerate(rng.sample(range(1, 100000), 4)):
        h.post([[(b'k', b'n%d' % i), (b'f', v)] for v in same_number(n)], rng)
        h.read(0, sel, [(b'k', b'n%d' % i)])
    w = bytes(rng.choice(b'abcdefgh') for _ in range(6))
    for j, vs in enumerate([[bytes(c ^ (32 if m >> t & 1 else 0) for t, c in enumerate(w)) for m in range(64)],
                            [b' ' * x + w + b' ' * y for x in range(6) for y in range(6)], [w[:3] + b' ' * x + w[3:] for x in range(30)],
                            [b'0' * x + b'7' for x in range(30)], [b'7.' + b'0' * x for x in range(30)], [w + b'\x00' * x for x in range(30)],
                            [w * x for x in range(1, 30)], *[[(w * 6000)[:a] + b'%02d' % x + (w * 6000)[:b] for x in range(30)] for a, b in
                              (*[p for n in (1100, 2100, 4100, 8200, 16400) for p in ((n, 0), (0, n), (n, n))], (33000, 0), (0, 33000), *(                              ((9, 9), (33, 33), (64, 64), (65, 65), (128, 0), (0, 128), (130, 130), (256, 0), (0, 256), (500, 0), (0, 500), (260, 260))))], [b'%d' % 10 ** x for x in range(18)] + [b'1e%d' % x for x in range(18)]]):
        for v in vs:
            h.write(0, [(b'f', v), (b'k', b'm%d' % j)])
        h.read(0, sel, [(b'k', b'm%d' % j)])
    return h


HASH_PAIRS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hashpairs.json')))


def c02_hashes(rng):
    """Key values whose FNV hashes, after the name of the key, have most of their bits in common; two records each."""
    h = Hist([schema('a', [b'k'], ['count'], [(b'v', ['sum'])], slots=9973), schema('z', [b'country'], ['count'], [(b'v', ['sum'])], slots=11)],
             kind='key values of similar hashes')
    zero = [(b'country', b'S7HVKAWiVzfc')]        # hashes to 0, which is no key in the record store
    for _ in range(2):
        h.query_all(1, zero, rng)
        h.post([zero + [(b'v', b'3')], [(b'country', b'x'), (b'v', b'4')]], rng)
    h.query_all(1, zero, rng)
    for _, a, b in HASH_PAIRS:
        a, b = a.encode(), b.encode()
        h.post([[(b'k', a), (b'v', b'1')], [(b'v', b'10'), (b'k', b)]], rng)
        h.query_all(0, [(b'k', a)], rng)
        h.query_all(0, [(b'k', b)], rng)
    return h


def c02_found(found):
    """Keys that the search of the driver has found to share a record."""
    h = Hist([schema('a', [b'k'], ['count'])], kind='keys found by the search')
    for a, b in found:
        h.write(0, [(b'k', a)])
        h.write(0, [(b'k', b)])
        for v in (a, b):
            h.read(0, [(b'count', b'*')], [(b'k', v)])
    return h


def c01_many(rng, ns):
    """Records of so many observations that their number needs more bytes."""
    h = Hist([schema('c', [b'k'], ['count'], [(b'v', ['sum', 'mean', 'max']), (b'w', ['var', 'min', 'mean'])])], kind='very many observations', repeat=0)
    for i, n in enumerate(ns):
        k = b'r%d' % i
        for j, m in enumerate([n - 2, 1, 1, 1]):
            r = [(b'k', k), (b'v', b'%d' % rng.randint(1, 9)), (b'w', b'%d' % rng.randint(-9, 9))]
            if j == 3 and rng.random() < .5:
                r = r[:2]
            h.many(0, r, m)
            h.query_all(0, [(b'k', k)], rng)
    return h


def c02_pairs(rng):
    """Key values that are easily conflated."""
    h = Hist([schema('a', [b'k'], ['count'], [(b'v', ['sum'])], slots=4999), schema('b', [b'k', b'l'], ['count'], slots=4999)], kind='key values easily conflated')
    for i, (a, b) in enumerate(sorted(conflatable(rng, 3), key=lambda p: len(p[0]) < 1400)[:120]):
        for v, n in ((a, 1), (b, 2)):
            r = [(b'k', v), (b'l', rng.choice([a, b, b'z']) if len(v) < 9000 else b'z'), (b'v', b'%d' % (i * 10 + n))]
            if not h.safe(r):
                continue
            rng.shuffle(r)
            if rng.random() < .5 and not set(r[0][1] + r[1][1] + r[2][1]) & set(b'\r\n'):
                h.post([r], rng)
            else:
                h.write(rng.randrange(2), r)
        for v in (a, b):
            h.query_all(0, [(b'k', v)], rng)
            c = [(b'l', rng.choice([a, b, b'z'])), (b'k', v)]
            if h.safe(c):
                h.query_all(1, c, rng)
    return h


BADNUM = [b'', b'abc', b'1x', b'--1', b'1e', b'1 ', b' 1', b'1,5', b'1e999', b'-1e999', b'0x', b'true', b'NaNa', b'1.2.3', b'0x10', b'0b1', b'0o7', b'0x', b'0x1p', b'1d', b'1f', b'+', b'-', b'.', b'e5', b'+-1',
          b'infin', b'in', b'na', b'nan1', b'-nan', b'+NaN', b'\xd9\xa1', b'1\x00', b'0X', b'1e+', b'1e309', b'-1.8e308']


def c08(rng, nops):
    """Rejected observations among valid ones."""
    fields = [b'p', b'q', b'r']
    stores = [schema('a', [b'k'], ['count'], measures(rng, fields, [5, 9])),
              schema('b', [b'l'], ['count'], measures(rng, rng.sample(fields, 2), [6]) + [(b's', [('uniquecount', 8)])])]
    if rng.random() < .5:
        stores.reverse()
    h = Hist(stores, kind='rejected observations')
    kv = [b'1', b'2', b'3']
    for _ in range(nops):
        k, l = rng.choice(kv), rng.choice(kv)
        r = [(f, numtext(rng, 'int')) for f in fields if rng.random() < .8]
        if rng.random() < .5:
            r.append((b's', rng.choice([b'u', b'v', b'w'])))
        if rng.random() < .5:
            j = rng.randint(0, len(r))
            r.insert(j, (rng.choice([f for f in fields]), rng.choice(BADNUM)))
            names = [f for f, _ in r]
            # no duplicate names: drop the other one
            f = r[j][0]
            r = [x for i, x in enumerate(r) if x[0] != f or i == j]
        r.insert(rng.randint(0, len(r)), (b'k', k))
        if rng.random() < .8:
            r.insert(rng.randint(0, len(r)), (b'l', l))
        m = rng.random()
        if m < .4:
            h.write(rng.randrange(2), r)
        else:
            h.post([r], rng)
        if rng.random() < .6:
            i = rng.randrange(2)
            h.query_all(i, [(dec(stores[i]['keys'][0]), rng.choice([k, l]))], rng)
    for i in range(2):
        for v in kv:
            h.query_all(i, [(dec(stores[i]['keys'][0]), v)], rng)
    return h


BADLINE = [b'', b'abc|k=1', b'|k=1', b'-5|k=1', b'99999999999999999999|k=1|v=1', b'9223372036854775808|k=1|v=1', b' 1|k=1', b'k=1', b'=', b'x']


def good(row, stores):
    """Will every collation take the observation?"""
    fs = {g['f'] for s in stores for g in s['measures'] if any(x['m'] != 'uniquecount' for x in g['ms'])}
    return all(number(v) for f, v in row if enc(f) in fs)


def c09_big(rng, size):
    """Bodies of more than a megabyte and of more lines than any buffer holds; forms that are too large."""
    stores = [schema('a', [b'k'], ['count'], [(b'v', ['sum', 'max', 'min', ('uniquecount', 12)])]), schema('c', [], ['count'], [(b'v', ['sum'])])]
    h = Hist(stores, kind='large bodies', repeat=0)

    def body(size, long):
        lines, n = [], 0
        while n < size:
            r = [(b'k', rng.choice([b'1', b'2'])), (b'v', str(rng.randint(0, 999)).encode())]
            if long or rng.random() < .01:
                r.append((b'pad', b'p' * rng.randint(1, 60000)))
            rng.shuffle(r)
            t = line(r, rng)
            lines.append((t, r))
            n += len(t) + 1
        return lines

    for size, long, ctc in ((size, True, 'plain'), (size // 30, False, 'octet'), (size // 4, True, 'form'), (size // 30, False, 'form')):
        ct = {'plain': 'text/plain', 'octet': None, 'form': 'application/x-www-form-urlencoded'}[ctc]
        lines = body(size, long)
        if rng.random() < .4:
            lines.insert(len(lines) - rng.randint(0, 3), (rng.choice(BADLINE), None))
        h.obs(lines, ct=ct, ctc=ctc, wire=rng.random() < .5, final=rng.random() < .5 or lines[-1][0] == b'', chunks=rng.choice([None, [4096], [1000], [65536], [100000]]))
        for v in (b'1', b'2'):
            h.query_all(0, [(b'k', v)], rng)
        h.query_all(1, [(b'z', b'z')], rng)
    if rng.random() < .5:
        h.obs([], ct='application/x-www-form-urlencoded', ctc='form', nodata=True, wrap=b'data=5%7Ck=1&pad=' + b'p' * (10 << 20))
    h.query_all(1, [(b'z', b'z')], rng)
    return h


def c09_bulk(rng, size, pad=0):
    """Bodies of many megabytes."""
    h = Hist([schema('a', [b'k'], ['count'], [(b'v', ['sum', 'max', 'min', ('uniquecount', 6)])]), schema('c', [], ['count'], [(b'v', ['sum', 'mean'])]),
              schema('d', [b'no'], ['count'])], kind='very large bodies', repeat=0)
    for i in range(2):
        row = [(b'k', b'1'), (b'v', rng.choice([b'3', b'-2.5']))] + [(b'pad%d' % j, b'x' * rng.choice([10, 100])) for j in range(rng.choice([2, 20][i:]))]
        if pad:
            row[-1] = (b'pad', b'x' * pad)
        h.post([row], rng)
        h.bulk(row, size // (len(line(row, rng)) + 1), rng, ct=rng.choice(['text/plain', 'application/octet-stream', None]), wire=i == 1)
        for i, c in enumerate([[(b'k', b'1')], [(b'z', b'1')]]):
            h.query_all(i, c, rng)
    h.post([row], rng)
    h.query_all(0, [(b'k', b'1')], rng)
    return h


def c09(rng, nops):
    """Batches with a bad line at any position."""
    stores = [schema('a', [b'k'], ['count'], [(b'v', ['sum', 'max']), (b'w', ['min'])]),
              schema('b', [b'l'], ['count'], [(b'v', ['mean', ('uniquecount', 8)])]),
              schema('c', [], ['count'], [(b'x', ['sum'])])]
    rng.shuffle(stores)
    h = Hist(stores, kind='batches')
    for _ in range(nops):
        n = rng.choice([0, 1, 2, 3, 5, 8, 40, 200])
        lines = []
        for _ in range(n):
            r = [(b'k', rng.choice([b'1', b'2']))] if rng.random() < .9 else []
            if rng.random() < .7:
                r.append((b'l', rng.choice([b'1', b'2'])))
            if rng.random() < .7:
                r.append((b'v', numtext(rng, 'int')))
            if rng.random() < .3:
                r.append((b'w', numtext(rng, 'int')))
            if rng.random() < .05:
                r.append((b'pad', b'p' * rng.choice([100, 4000, 5000, 60000])))
            rng.shuffle(r)
            lines.append((line(r, rng), r))
        if rng.random() < .7 and n:
            j = rng.choice([0, n - 1, rng.randint(0, n)])
            k = rng.random()
            if k < .5:
                t = rng.choice(BADLINE)
                lines.insert(j, (t, None))
            elif k < .6:
                t = b'5|k=1|v=3|pad=' + b'y' * rng.choice([65600, 70000, 200000])
                lines.insert(j, (t, None))
            else:
                r = [(b'k', b'1'), (b'l', b'1'), (rng.choice([b'v', b'w', b'x']), rng.choice(BADNUM[1:]))]
                lines.insert(j, (line(r, rng), r))
        m = media(rng)
        if m['ctc'] == 'form' and not lines:
            m = {'ct': 'text/plain', 'ctc': 'plain'}
        if lines and lines[-1][0] == b'' and not m['final']:
            m['final'] = True           # otherwise the empty last line would not be one
        # an empty line with \r\n is still an empty line; a last line with a long value and no \n is fine
        size = sum(len(t) + len(m.get('sep', b'\n')) for t, _ in lines)
        if size > 20000 and 'chunks' in m:
            m['chunks'] = [rng.randint(1000, 9000)]
        if size and rng.random() < .25:
            # the body breaks off: anywhere, or just before or after the end of a line
            ends = [0]
            for t, _ in lines:
                ends.append(ends[-1] + len(t) + len(m.get('sep', b'\n')))
            k = rng.choice([rng.randint(0, size), rng.choice(ends), rng.choice(ends[1:]) - 1, rng.choice(ends[1:]) - rng.randint(1, 3), size])
            m['cutat'] = max(0, min(k, size - (0 if m.get('final', True) else len(m.get('sep', b'\n')))))
            if not all(r is not None and good(r, stores) for _, r in lines):
                m.pop('wire', None)
        h.obs(lines, **m)
        if rng.random() < .7:
            i = rng.randrange(3)
            ks = stores[i]['keys']
            h.query_all(i, [(dec(k), rng.choice([b'1', b'2'])) for k in ks] or [(b'z', b'z')], rng)
    for i in range(3):
        for v in (b'1', b'2'):
            h.query_all(i, [(dec(k), v) for k in stores[i]['keys']] or [(b'z', b'z')], rng)
    return h


def c10(rng, nops):
    """Lines as bytes."""
    names = rng.choice([[b'a', b'b'], [b'a', b''], [b'x y', b'a'], [b'\x00', b'\xff'], [b'|', b'a'], [b'0', b'a'], [b' a', b'a '], [b'A', b'a'],
                        [b'\x80', b'\xbfa'], [b'\xa9', b'"a"'], [b'#', b'-']])
    stores = [schema('c%d' % i, [n], ['count'], [(b'n', ['sum', 'max', ('uniquecount', 12)])]) for i, n in enumerate(names)]
    stores.append(schema('all', [], ['count'], [(b'n', [('uniquecount', 12), 'min'])]))
    h = Hist(stores, kind='line format')
    for e in [str(i).encode() for i in range(0, 100)] + NUM_TEXTS:
        n = number(e)
        if n:
            h.nums[enc(e)] = n

    probes = set()
    odd = [v for p in conflatable(rng) for v in p if len(v) < 40 and b'\n' not in v]

    def value():
        k = rng.random()
        if rng.random() < .25:
            return rng.choice(odd)
        if k < .3:
            return rng.choice([b'', b'=', b'a=b', b'==', b'v=', b' v ', b'=v'])
        if k < .6:
            return bytes(rng.choice([rng.randint(0, 255), rng.randint(32, 126)]) for _ in range(rng.randint(0, 5))).replace(b'\n', b'')
        return str(rng.randint(0, 99)).encode()

    def mkline(delim):
        k = rng.random()
        if k < .12:
            ts = rng.choice([b'', b'-1', b'+1', b'a', b' 1', b'\t1', b'.5', b'=1'])
        elif k < .3:
            ts = rng.choice([b'9223372036854775807', b'9223372036854775808', b'99999999999999999999', b'00000000000000000001', b'0',
                             b'09223372036854775807', b'18446744073709551616', b'9223372036854775799', b'10000000000000000000'])
        else:
            ts = str(rng.randint(0, 10 ** rng.randint(1, 18))).encode()
        out = ts
        if rng.random() < .07:
            return out
        if rng.random() < .3:           # what begins with the delimiter, or looks as if it did
            out += delim + rng.choice([bytes([rng.randint(128, 191)]), bytes([rng.randint(0, 255)]), b' ', b'=', b'"', b'#', b'\r', b'\x00']).replace(b'\n', b'')
        for _ in range(rng.randint(0, 5)):
            k = rng.random()
            name = rng.choice(names + [b'n', b'z'])
            v = value()
            if rng.random() < .08:
                v += rng.choice([b'\r', b'\r', b' ', b'\t', b'\x00', b'\r\r'])     # the end of a value, but not of a line
            if name == b'n':
                v = rng.choice([str(rng.randint(0, 99)).encode(), rng.choice(NUM_TEXTS)])
                if rng.random() < .1:
                    v = b'x' + v
            v = v.replace(delim, b'') if rng.random() < .8 else v
            probes.add((name, v))
            probes.add((name, v[:-1]))
            if k < .8:
                out += delim + name + b'=' + v
            elif k < .9:
                out += delim + name
                probes.add((name, b''))
            else:
                out += delim
        if rng.random() < .02:
            # many fields, and then one that counts
            pad = rng.choice([b'z=', b'zz=%d', b'z', b'', b'q=' + b'9' * rng.choice([1, 100])]).replace(delim, b'')
            out += b''.join(delim + (pad % i if b'%' in pad else pad) for i in range(rng.choice([16, 31, 64, 127, 128, 129, 255, 256, 257])))
            v = value().replace(delim, b'')
            name = rng.choice(names)
            out += delim + name + b'=' + v
            probes.add((name, v))
        if rng.random() < .1:
            out += delim
        return out

    if rng.random() < .5:
        # very many fields, and then those that count
        pad = rng.choice([b'z=', b'zz=%d', b'z', b'', b'q=' + b'9' * rng.choice([1, 100])])
        row = [(pad % i if b'%' in pad else pad) for i in range(rng.choice([16, 31, 64, 127, 128, 129, 255, 256, 257, 1000]))]
        row = row[:60000 // (len(row[-1]) + 1)]     # a line of 64 kilobytes would be too long
        v = b'%d' % rng.randint(0, 99)
        row += [n + b'=' + v for n in names] + [b'n=7']
        free = [d for d in range(256) if d not in b''.join(row) + b'0123456789=\r\n']
        d = bytes([rng.choice(free)])
        body = b'7' + d + d.join(row)
        h.obs([], ct='text/plain', ctc='plain', body=body, rowmode=False, bodylines=[list(body)])
        for i, n in enumerate(names):
            h.read(i, [(b'count', b'*'), (b'sum', b'n'), (b'uniquecount', b'n')], [(n, v)])
        h.read(len(names), [(b'count', b'*'), (b'uniquecount', b'n'), (b'min', b'n')], [])
    for _ in range(nops):
        d = bytes([rng.choice([rng.randint(0, 255), rng.choice([0xc2, 0xc3, 0xe2, 0xf0, 0xef]), rng.choice(b'|,;\t =\r\x00\xff-.e')])])
        while d == b'\n' or d in b'0123456789':
            d = bytes([rng.randint(0, 255)])
        ls = [mkline(d).replace(b'\n', b'') for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        ls = [l for l in ls if not re.match(rb'\d{21}', l)]
        # the names of measured fields must be unique in an observation (documented precondition)
        ls = [l for l in ls if sum(x == b'n' or x.startswith(b'n=') for x in re.split(b'[' + re.escape(d) + b'\r]', l)) < 2]
        if rng.random() < .05:
            ls.insert(rng.randint(0, len(ls)), b'')
        body = b'\n'.join(ls)
        if rng.random() < .5:
            body += b'\n'
        if rng.random() < .1:
            body = body.replace(b'\n', b'\r\n')
        k = rng.random()
        if k < .3 and body:
            ct, ctc = 'application/x-www-form-urlencoded', 'form'
        else:
            ct, ctc = rng.choice([('text/plain', 'plain'), (None, 'octet')])
        h.obs([], ct=ct, ctc=ctc, body=body, rowmode=False, bodylines=[list(x) for x in body.split(b'\n')],
              chunks=[rng.randint(1, 9)] if rng.random() < .3 else None)
        # numbers that may appear as values of n in pieces: everything between '=' and a byte equal to the delimiter
        for l in ls:
            for piece in l.split(d):
                if b'=' in piece:
                    v = piece[piece.index(b'=') + 1:]
                    for x in (v, v.rstrip(b'\r'), v[:-1] if v.endswith(b'\r') else v):
                        n = number(x)
                        if n:
                            h.nums[enc(x)] = n
        ps = list(probes)
        for name, v in ps[:12] if len(ps) < 12 else [ps[rng.randrange(len(ps))] for _ in range(12)]:
            if name in names:
                h.read(names.index(name), [(b'count', b'*'), (b'sum', b'n'), (b'uniquecount', b'n')], [(name, v)])
        h.read(len(names), [(b'count', b'*'), (b'uniquecount', b'n'), (b'min', b'n')], [])
        if rng.random() < .4:
            probes.clear()
    return h


def c11(rng, nops):
    """Queries of the dialect over random schemas."""
    fields = [b'h', b'w', b'iata', b'x.y', b'n_1', b'gr\xc3\xb6\xc3\x9fe', b'H', b'select', b'where']
    stores = []
    for n, name in enumerate(rng.sample(['country', 'tz', 'a b', 'Caf\u00e9', 'x', 'obs', 'select'], rng.randint(1, 3))):
        fs = rng.sample(fields, rng.randint(1, 4))
        stores.append(schema(name, rng.choice([[b'k'], [b'k', b'l'], [b'l', b'k'], [b'l', b'k', b'm'], []]), rng.choice([['count'], []]),
                             measures(rng, fs, [4, 7, 10])))
    h = Hist(stores, kind='queries')
    vals = [b'v', b'United States', b'a=b', b'x where y', b'where', b' select a(b) where ', b'and', b'1,2', b'f(x)', b'=', b'a=', b'\xff\xfe', b'\xc3\xa9',
            b'%', b'&q=', b'+', b'"', b'\\', b'\t', b' ', b'k', b'--', b';', b'`', b'(', b')', b'x' * 200, b'rock and roll', b' and ', b'a and b', b'x and', b'and x', b'AND', b'a or b', b'x, y', b"x)", b'select', b'y' * 3000, b'count(*)',
            b'1e3', b'1000', b'%20', b'a%20b', b'a+b', b'a b', b'\xff', b'\x00', b'\x01', b'a\x00b', b'\xe2\x80\xa8', b'--x', b'/*', b'<b>', b'&amp;', b'#', b'?', b'a/b', b'..']
    kv = rng.sample(vals, 3)
    if rng.random() < .2:
        kv = [x for x in rng.choice(conflatable(rng)) if x and b"'" not in x and not set(x) & set(b'\r\n')] or kv
    for _ in range(nops):
        if rng.random() < .35 or len(h.ops) < 3:
            r = [(f, v) for f, v in ((b'k', rng.choice(kv)), (b'l', rng.choice(kv)), (b'm', rng.choice(kv))) if rng.random() < .9]
            r += [(f, str(rng.randint(-50, 50)).encode()) for f in fields if rng.random() < .6]
            if h.safe(r):
                h.post([r], rng)
            continue
        i = rng.randrange(len(stores))
        s = stores[i]
        sel = []
        own = [(dec(m), dec(f)) for m, f in pairs_of(s)]
        for _ in range(rng.choice([1, 2, 3, 6, 10] * 3 + [40, 120])):
            k = rng.random()
            if k < .7:
                sel.append(rng.choice(own))
            elif k < .85:
                sel.append((rng.choice([b'sum', b'mean', b'max', b'uniquecount', b'var']), rng.choice(fields)))
            else:
                sel.append(rng.choice([(b'median', b'h'), (b'count', b'*'), (b'Sum', b'h'), (b'sum', b'nope'), (b'COUNT', b'*'), (b'sum', b'*')]))
        crit = [(dec(k), rng.choice(kv)) for k in s['keys'] if rng.random() < .97]
        for f in rng.sample([b'e1', b'other', b'z.z', b'Where', b'sel'], rng.choice([0, 0, 1, 2])) or ([b'e1'] if not crit else []):
            crit.append((f, rng.choice(vals)))
        if rng.random() < .06:
            crit += [(b'e%d' % j, rng.choice(vals)) for j in range(2, rng.choice([10, 30, 100]))]
        rng.shuffle(crit)
        if not h.safe(crit):
            continue
        name = dec(s['name'])
        a = h.query(name, sel, crit, rng, text=qtext(sel, crit))
        if rng.random() < .4:
            # queries whose text is nearly the same, for records that exist, and the same query after that
            near = []
            for j, (f, v) in enumerate(crit):
                for v2 in {v.swapcase(), v.upper(), v.lower(), v.replace(b' ', b'  '), v.replace(b' ', b'\t'), v.replace(b' ', b''), v + b' ', b' ' + v, v + b';', v[:-1], v[1:], v + v[-1:], v[::-1]}:
                    if v2 and v2 != v and b"'" not in v2:
                        near.append((sel, crit[:j] + [(f, v2)] + crit[j + 1:]))
                near.append((sel, crit[:j] + [(f.upper(), v)] + crit[j + 1:]))
            for j, (m, f) in enumerate(sel[:6]):
                near += [(sel[:j] + [x] + sel[j + 1:], crit) for x in ((m.upper(), f), (m, f.swapcase()), (m + b'x', f), (m, f + b'1'))]
            near += [(sel[:-1], crit), (sel[::-1], crit), (sel, crit[::-1]), (sel + sel[-1:], crit)]
            near = [x for x in rng.sample(near, min(len(near), 4)) if x[0] and h.safe(x[1])]
            for sel2, crit2 in near:
                r = dict(reversed([(f, v) for f, v in crit2 if f in (b'k', b'l', b'm')]))
                if crit2 != crit and all(x in r for x in (dec(k) for k in s['keys'])) and rng.random() < .8 and h.safe(list(r.items())):
                    h.post([list(r.items()) + [(f, str(rng.randint(-50, 50)).encode()) for f in fields if rng.random() < .7]], rng)
                h.query(name, sel2, crit2, rng, text=qtext(sel2, crit2))
            a = h.query(name, sel, crit, rng, text=qtext(sel, crit))
        elif rng.random() < .8:
            # the same query again, in another layout
            b = h.query(name, sel, crit, rng)
            h.same(a, b)
        if rng.random() < .5 and len(crit) > 1:
            c2 = crit[:]
            rng.shuffle(c2)
            b = h.query(name, sel, c2, rng)
            h.same(a, b, (len(crit), len(c2)))
        if rng.random() < .3:
            c2 = crit + [(b'extra', rng.choice(vals))]
            rng.shuffle(c2)
            b = h.query(name, sel, c2, rng)
            h.same(a, b, (len(crit), len(c2)))
        if rng.random() < .3:
            bad = rng.choice([b'', b'select', b'where', b'select sum(h)', b'sum(h) where k=\'1\'', b'selects sum(h) where k=\'1\'',
                              b'select sum(h) wherek=\'1\'', b'select where k=\'1\'', b'select sum(h) where ', b'update x where y',
                              b'selectsum(h) where k=\'1\'', b'x select sum(h) where k=\'1\'', b'from sum(h) where k=\'1\''])
            h.query(name, [], [], rng, text=bad, qok=False)
    return h


def c10_names(rng, n):
    """Long names of fields, which differ at the end or in the middle."""
    b = rng.choice([b'n', b'name', b'na me', b'x.y-', b'\xc3\xa9'])
    names = []
    for size in rng.sample([40, 64, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 8192, 16384, 30000], 2):
        x = (b * size)[:size]
        names += [x + b'1', x + b'2', x[:size // 2] + b'_' + x[size // 2 + 1:]]
    stores = [schema('a', [names[0]], ['count'], [(names[1], ['sum', 'max'])]), schema('b', [names[1]], ['count'], [(names[0], [('uniquecount', 6)])]),
              schema('c', [b'k'], ['count'], [(x, ['sum', ('uniquecount', 5)]) for x in names]), schema('d', [names[-1], names[3]], ['count'])]
    h = Hist(stores, kind='long names')
    for _ in range(n):
        row = [(x, b'%d' % rng.randint(1, 3)) for x in names if rng.random() < .7] + [(b'k', b'1')]
        rng.shuffle(row)
        while sum(len(f) for f, _ in row) > 60000:
            row.pop()
        h.post([row], rng)
        if rng.random() < .5:
            i = rng.randrange(4)
            h.query_all(i, [(dec(x), b'%d' % rng.randint(1, 3)) for x in stores[i]['keys']], rng)
    for i, s in enumerate(stores):
        for v in (b'1', b'2', b'3'):
            h.query_all(i, [(dec(x), v) for x in s['keys']], rng)
    return h


def c12_many(rng, n):
    """A server with very many collations."""
    names = [rng.choice(['c%d', 'collation-%d', '%d', 'c%05d', 'C%x', 'x%d.y']) % i for i in range(n)]
    names = list(dict.fromkeys(names))
    stores = [schema(x, [rng.choice([b'k', b'k', b'l'])], ['count'], [(b'v', ['sum'])] if rng.random() < .2 else [], slots=5) for x in names]
    h = Hist(stores, kind='%d collations' % n)
    for i in range(2):
        h.post([[(b'k', b'1'), (b'v', b'%d' % rng.randint(1, 9))], [(b'l', b'1'), (b'v', b'2')]], rng)
        at = {0, 1, len(names) - 1, len(names) - 2} | {x + d for x in (16, 32, 64, 128, 256, 512, 1024) for d in (-1, 0, 1)} | {rng.randrange(len(names)) for _ in range(20)}
        for j in sorted(at, key=lambda x: rng.random()):
            if j < len(names):
                h.query_all(j, [(dec(stores[j]['keys'][0]), b'1')], rng, 'http')
        for x in ('c', names[-1] + '0', 'c%d' % (n + 256), names[0][:-1] or 'z'):
            if x not in names:
                h.query(x.encode(), [(b'count', b'*')], [(b'k', b'1')], rng)
    return h


def c12(rng, nops):
    """Requests of every kind, between observations and queries that show nothing else has changed."""
    stores = [schema('country', [b'k'], ['count'], [(b'v', ['sum'])]), schema('a b', [b'k'], ['count']), schema('obs', [], ['count'])]
    h = Hist(stores, kind='requests')
    meths = ['GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'PATCH', 'OPTIONS', 'FOO', 'post', 'get']
    good = [(b'5|k=1|v=2', [(b'k', b'1'), (b'v', b'2')])]
    for _ in range(nops):
        wire = rng.random() < .25
        how = {'Proto': '1.0'} if rng.random() < .15 else {}
        k = rng.random()
        if k < .06:
            # paths at which there is nothing, or which are not written as they should be
            if rng.random() < .7:
                h.obs(good, ct='text/plain', ctc='plain', wire=wire, method=rng.choice(['POST', 'POST', 'GET', 'PUT']), route='none', how=how,
                      target=rng.choice(['/', '/foo', '/obs/', '/obs/x', '/Obs', '/collations', '/collations/country', '/obs2', '/debug/pprof/', '/collatio', '/index.html']))
            else:
                h.obs(good, ct='text/plain', ctc='plain', wire=wire, method=rng.choice(['POST', 'GET']), route='near', how=how,
                      target=rng.choice(['/collation', '/./obs', '/x/../obs', '/collation/../obs', '/collation/./country']))
        elif k < .55:
            meth = rng.choice(['POST', 'POST', 'POST'] + meths)
            c = rng.random()
            lines = rng.choice([good, good, good * 2, [], good + [(b'x', None)], [(b'', None)], [(b'5', [])]])
            if c < .3:
                m = {'ct': rng.choice(['text/plain', 'TEXT/PLAIN', 'text/plain; charset=utf-8', 'text/plain;charset=us-ascii']), 'ctc': 'plain'}
            elif c < .5:
                m = {'ct': rng.choice([None, None, '', 'application/octet-stream', 'application/octet-stream; a=b']), 'ctc': 'octet'}
            elif c < .7:
                m = {'ct': rng.choice(['application/x-www-form-urlencoded', 'Application/X-WWW-Form-Urlencoded', 'application/x-www-form-urlencoded; charset=utf-8']),
                     'ctc': 'form'}
                if rng.random() < .4 or not lines:
                    m.update(nodata=True, wrap=rng.choice([b'', b'data=', b'other=1', b'Data=5%7Ck=1', b'dat=5']))
                    lines = []
            elif c < .85:
                m = {'ct': rng.choice(['application/json', 'text/html', 'image/png', 'multipart/form-data; boundary=x', 'text/csv', 'application/xml',
                                       'text/plainx', 'x/y', 'application/octet', 'application/form']), 'ctc': 'other'}
            else:
                m = {'ct': rng.choice(['/', 'text/', '/plain', 'text plain', 'text/plain; =x', 'text/plain; charset', ';', 'text/plain/x', 'text/pl@in',
                                       'text/plain; a=1; a=2']), 'ctc': 'bad'}
            if m['ctc'] == 'form' and meth not in ('POST', 'PUT', 'PATCH'):
                m['nodata'] = False
            h.obs(lines, method=meth, wire=wire, final=rng.random() < .5 and lines != [(b'', None)] or lines == [(b'', None)], how=how, **m)
        elif k < .9:
            meth = rng.choice(['GET', 'POST'] * 4 + meths)
            sel, crit = [(b'count', b'*')], [(b'k', rng.choice([b'1', b'2']))]
            c = rng.random()
            if c < .45:
                name, nested, target = rng.choice([b'country', b'a b', b'obs']), False, None
            elif c < .7:
                name, nested, target = rng.choice([b'nope', b'Country', b'country ', b'countr', b'countryx', b'*', b'a', b'c?d', b'\xff']), False, None
            elif c < .85:
                name, nested, target = rng.choice([b'country/x', b'a/b', b'x/y/z', b'country/', b'obs/1']), True, None
            else:
                name, nested, target = b'', False, '/collation/'
            if rng.random() < .25:
                h.query(name, sel, crit, rng, text=rng.choice([b'', b'x', b'select count(*)', b"count(*) where k='1'"]), qok=False, method=meth, nested=nested,
                        target=target, wire=wire, how=how)
            else:
                h.query(name, sel, crit, rng, method=meth, nested=nested, target=target, wire=wire, how=how)
        if rng.random() < .5:
            i = rng.randrange(3)
            h.query_all(i, [(b'k', b'1')], rng)
    for i in range(3):
        h.query_all(i, [(b'k', b'1')], rng)
    return h


def c13(rng, nops):
    """A history and its twin without the queries."""
    mk = lambda: [schema('a', [b'k'], ['count'], [(b'v', ['sum', 'mean', 'var', 'max', 'min', ('uniquecount', 6)]), (b'f', [('uniquecount', 5)])], slots=23),
                  schema('b', [b'k', b'l'], ['count'], [(b'f', [('uniquecount', 9)]), (b'v', ['var'])], slots=13)]
    h, t = Hist(mk(), kind='queries have no effect', repeat=.3), Hist(mk(), kind='twin', repeat=0)
    h.twin = t
    kv = [b'1', b'2', b'3', b'4']
    for _ in range(nops):
        rows = []
        for _ in range(rng.choice([1, 1, 4])):
            r = [(b'k', rng.choice(kv[:3])), (b'l', rng.choice(kv[:3]))]
            if rng.random() < .7:
                r.append((b'v', numtext(rng, rng.choice(['float', 'int', 'nan']))))
            if rng.random() < .7:
                r.append((b'f', b'u%d' % rng.randint(0, 40)))
            if rng.random() < .1:
                r.append((b'v', b'bad')) if not any(f == b'v' for f, _ in r) else None
            rows.append(r)
        # absent records are asked for before they exist
        for _ in range(rng.choice([0, 1, 3])):
            k = rng.random()
            i = rng.randrange(2)
            crit = [(dec(x), rng.choice(kv + [b'%d' % rng.randint(5, 99)])) for x in h.stores[i]['keys']]
            if k < .7:
                h.query_all(i, crit, rng)
            elif k < .8:
                h.query(b'a', [(b'sum', b'nope')], crit, rng)
            elif k < .9:
                h.query(b'nope', [(b'sum', b'v')], crit, rng)
            else:
                h.query(b'a', [], [], rng, text=b'rubbish', qok=False)
        # some queries are the same, byte by byte, before and after
        before = [h.query_all(i, [(dec(x), dict(rows[0]).get(dec(x))) for x in h.stores[i]['keys']], rng, 'http') for i in range(2)] if rng.random() < .6 else []
        st = rng.getstate()
        h.repeat = 0
        n = len(h.ops)
        h.post(rows, rng)
        h.repeat = .3
        rng.setstate(st)
        t.post(rows, rng)
        for k in before:
            h.again(k)
        if rng.random() < .2:           # the batch is sent again
            h.again(n)
            t.again(len(t.ops) - 1)
            for k in before:
                h.again(k)
    # the same query very many times
    if rng.random() < .06:
        k = rng.choice(h.asked)
        for _ in range(rng.choice([110, 260, 520, 1100])):
            h.again(k)
        h.repeat = 0
        h.post([[(b'k', b'1'), (b'l', b'1'), (b'v', b'3')]], random.Random(0))
        h.repeat = .3
        t.post([[(b'k', b'1'), (b'l', b'1'), (b'v', b'3')]], random.Random(0))
        h.again(k)
    # many more than there is room for, and then new ones that there is room for
    for n in range(rng.choice([0, 30])):
        for i in range(2):
            h.query_all(i, [(dec(x), b'%d' % rng.randint(5, 999)) for x in h.stores[i]['keys']], rng)
    h.repeat = 0
    for x in (h, t):
        x.obs([(b'1|k=4|l=1', [(b'k', b'4'), (b'l', b'1')])], ct='text/plain', ctc='plain')
    for i in range(2):
        for a in kv:
            for b in (kv if i else [b'1']):
                crit = [(b'k', a)] + ([(b'l', b)] if i else [])
                x = h.query_all(i, crit, random.Random(1), 'http')
                h.same(x, t.query_all(i, crit, random.Random(1), 'http'), twin=True)
    return h


def c14(rng, nops):
    """A composite schema against one schema per measure."""
    fields = rng.sample([b'a', b'b', b'c', b'd'] * 2 + [b'*', b'', b'A', b'count', b'sum', b'k', b'a' * 200, b'a' * 199 + b'b', b'\xff', b'a.b', b'a b'], rng.randint(1, 3))
    fields = sorted(set(fields))
    groups = []
    for _ in range(rng.randint(1, 5)):
        f = rng.choice(fields)
        ms = [rng.choice(['sum', 'mean', 'var', 'max', 'min', ('uniquecount', rng.choice([4, 5, 6, 7, 8, 10, 11, 14, rng.randint(4, 18)]))]) for _ in range(rng.randint(1, 6))]
        groups.append((f, ms))
    comp = schema('comp', [b'k'], rng.choice([['count'], [], ['count']]), groups, slots=19)
    stores = [comp]
    singles = []
    for m, f in pairs_of(comp):
        if m == 'count':
            s = schema('s%d' % len(stores), [b'k'], ['count'], [], slots=19)
        else:
            p = 0
            for g in comp['measures']:
                for x in g['ms']:
                    if g['f'] == f and x['m'] == m:
                        p = x['p']
            s = schema('s%d' % len(stores), [b'k'], [], [(dec(f), [(m, p)])], slots=19)
        singles.append(((dec(m), dec(f)), len(stores)))
        stores.append(s)
    h = Hist(stores, kind='measures of one collation ' + str(groups))
    kv = [b'1', b'2', b'3']
    style = rng.choice(STYLES)
    rows = []
    for _ in range(nops):
        r = [(b'k', rng.choice(kv))] + [(f, numtext(rng, style)) for f in fields if rng.random() < .6 and f != b'k']
        rng.shuffle(r)
        rows.append(r)
        h.post([r], rng)
        if rng.random() < .2:
            k = rng.choice(kv)
            m, i = rng.choice(singles)
            h.same(h.read(0, [m], [(b'k', k)]), h.read(i, [m], [(b'k', k)]))
    for k in kv:
        for m, i in singles:
            h.same(h.read(0, [m], [(b'k', k)]), h.read(i, [m], [(b'k', k)]))
        h.query_all(0, [(b'k', k)], rng)
    h.canary(0, rows)
    h.canary(0, [r for r in rows if len(r) > 1] + rows)
    return h


def c23(rng, nops):
    """Cancellation before, between and during the lines of a batch, and direct writes with a cancelled context."""
    stores = [schema('a', [b'k'], ['count'], [(b'v', ['sum'])]), schema('b', [b'l'], ['count'], [(b'v', ['sum', 'max'])]),
              schema('c', [], ['count'], [(b'v', ['sum'])])]
    stores = stores[:rng.choice([1, 2, 3, 3])]
    if rng.random() < .1:
        stores += [schema('d%d' % i, [rng.choice([b'k', b'l'])], ['count'], [(b'v', ['sum', 'min'])]) for i in range(rng.randint(1, 5))]
    rng.shuffle(stores)
    h = Hist(stores, kind='cancelled requests')
    ns = len(stores)
    seq = [0]

    def row():
        r = []
        if rng.random() < .85:
            r.append((b'k', rng.choice([b'1', b'2'])))
        if rng.random() < .85:
            r.append((b'l', rng.choice([b'1', b'2'])))
        seq[0] += 1
        r.append((b'v', str(2 ** (seq[0] % 20) + seq[0]).encode()))
        return r

    def routed(i, r):
        names = [f for f, _ in r]
        return all(dec(k) in names for k in stores[i]['keys'])

    for _ in range(nops):
        k = rng.random()
        if k < .25:
            h.write(rng.randrange(ns), row(), live=rng.random() < .3, deadline=rng.random() < .5)
        elif k < .4:
            h.post([row() for _ in range(rng.randint(1, 3))], rng)
        else:
            rows = [row() for _ in range(rng.choice([1, 2, 3, 4, 5] * 4 + [10, 17, 40]))]
            lines = [(line(r, rng), r) for r in rows]
            n = len(rows)
            c = rng.random()
            past = rng.random() < .5
            if c < .2:
                h.cut(lines, {'When': 'before', 'Deadline': past}, 0, 0)
            elif c < .6:
                j = rng.randint(1, n + 1)
                h.cut(lines, {'When': 'read', 'N': j, 'Deadline': past}, 0, (j - 1) * ns, chunks=[len(t) + 1 for t, _ in lines])
            else:
                i = rng.randrange(ns)
                steps = [j for j, r in enumerate(rows) if routed(i, r)]
                if not steps:
                    continue
                m = rng.randrange(len(steps))
                when = rng.choice(['enter', 'leave'])
                hi = steps[m] * ns + i + 1
                h.cut(lines, {'When': when, 'N': m + 1, 'Store': i, 'Deadline': past}, hi - 1 if when == 'enter' else hi, hi)
        if rng.random() < .8:
            # queries that pin down what was applied
            for i, s in enumerate(stores):
                for v in (b'1', b'2') if s['keys'] else (b'z',):
                    h.query_all(i, [(dec(k), v) for k in s['keys']] or [(b'z', b'z')], rng)
    for i, s in enumerate(stores):
        for v in (b'1', b'2') if s['keys'] else (b'z',):
            h.query_all(i, [(dec(k), v) for k in s['keys']] or [(b'z', b'z')], rng)
    return h
