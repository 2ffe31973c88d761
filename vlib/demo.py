"""The built program: start it, talk to it on port 2525, stop it with a signal."""
import ctypes, fcntl, http.client, json, os, random, signal, socket, subprocess, time
import web
from infra import *

PORT = 2525


def demo_hist(kind):
    u10, u8 = ('uniquecount', 10), ('uniquecount', 8)
    h = web.Hist([web.schema('country', [b'country'], ['count'], [(b'height', ['mean', 'sum', 'var', 'max', 'min']), (b'iata', [u10])]),
                  web.schema('tz', [b'tz'], ['count'], [(b'country', [u8]), (b'height', [u8])])], kind=kind)
    h.demo = True
    return h


def airports():
    rows = []
    for l in open(os.path.join(REPO, 'misc/airports.sh'), 'rb'):
        m = re.search(rb'data=(\d+\|[^"]*)"', l)
        if m and not re.search(rb'[&+;%]', m.group(1)):
            t = m.group(1)
            rows.append((t, [tuple(x.split(b'=', 1)) for x in t.split(b'|')[1:]]))
    rows = [(t, r) for t, r in rows if all(len(x) == 2 for x in r)]
    return rows


def free(port):
    s = socket.socket()
    s.settimeout(1)
    try:
        return s.connect_ex(('127.0.0.1', port)) != 0
    finally:
        s.close()


def addresses():
    """Addresses of this machine: the port is that of all of them."""
    out = ['127.0.0.1', '127.0.0.2']
    try:
        with socket.socket(socket.AF_INET6) as s:
            s.bind(('::1', 0))
        out.append('::1')
    except OSError:
        pass
    return out


def connect(host='127.0.0.1'):
    return http.client.HTTPConnection(host, PORT, timeout=30)


def begin_slowly(op):
    """A request of which only part of the header arrives, and how it goes on."""
    body = web.dec(op['Body']) or b''
    hd = ('Content-Type: %s\r\n' % op['CT']) if op['CT'] is not None else ''
    head = '%s %s HTTP/1.1\r\nHost: x\r\n%sContent-Length: %d\r\nConnection: close\r\n\r\n' % (op['Method'], op['Target'], hd, len(body))
    s = socket.create_connection(('127.0.0.1', PORT), timeout=30)
    s.sendall(head[:-10].encode('latin-1'))

    def finish():
        try:
            s.sendall(head[-10:].encode('latin-1') + body)
            r = http.client.HTTPResponse(s, method=op['Method'])
            r.begin()
            return answer(r, r.read())
        finally:
            s.close()
    return finish


def send_slowly(op, pause):
    """The request arrives in two parts, with a pause in the middle of its body."""
    body = web.dec(op['Body']) or b''
    hd = ('Content-Type: %s\r\n' % op['CT']) if op['CT'] is not None else ''
    head = '%s %s HTTP/1.1\r\nHost: x\r\n%sContent-Length: %d\r\nConnection: close\r\n\r\n' % (op['Method'], op['Target'], hd, len(body))
    s = socket.create_connection(('127.0.0.1', PORT), timeout=30)
    try:
        s.sendall(head.encode('latin-1') + body[:5])
        time.sleep(pause)
        s.sendall(body[5:])
        r = http.client.HTTPResponse(s, method=op['Method'])
        r.begin()
        return answer(r, r.read())
    finally:
        s.close()


def send(op, c=None):
    own = c is None
    if own:
        c = connect()
    hd = dict(op.get('Headers') or [])
    if op['CT'] is not None:
        hd['Content-Type'] = op['CT']
    body = web.dec(op['Body']) * op.get('Times', 1) or (b'' if op['Method'] == 'POST' else None)
    if body and len(body) % 3 == 0:
        n = len(body) // 2              # sent in chunks
        c.request(op['Method'], op['Target'], body=iter([body[:n], body[n:]]), headers=hd, encode_chunked=True)
    else:
        c.request(op['Method'], op['Target'], body=body, headers=hd)
    r = c.getresponse()
    b = r.read()
    if own:
        c.close()
    return answer(r, b)


def answer(r, b):
    cc = (r.getheader('Cache-Control') or '').lower()
    tail = not b or b.endswith(b'\n')
    lines = []
    for l in (b[:-1] if b.endswith(b'\n') else b).split(b'\n') if b else []:
        l = l[:300]
        x = {'raw': enc(l), 'm': '', 'f': '', 'k': 'none', 'v': '0'}
        p, e = l.find(b'('), l.rfind(b')=')
        if 0 <= p < e:
            n = web.number(l[e + 2:])
            if n:
                x.update(m=enc(l[:p]), f=enc(l[p + 1:e]), k=n['k'], v=n['v'])
        lines.append(x)
    return {'status': r.status, 'nc': 'no-cache' in cc or 'no-store' in cc, 'lines': lines, 'tail': tail, 'bad': ''}


ROUGH = [b'\x00\x01\x02\r\n\r\n', b'GET', b'GET /obs HTTP/1.1\r\n', b'POST /obs HTTP/1.1\r\nHost: x\r\nContent-Length: -5\r\n\r\n', b'GET / HTTP/9.9\r\n\r\n',
         b'POST /obs HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n', b'A' * 3000000, b'',
         b'GET /collation/country?q=%zz HTTP/1.1\r\n\r\n', b'\r\n\r\n\r\n',
         b'POST /obs HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n1|country=Fran']   # nothing of this is to be seen


def rough(rng, held):
    """A client that does not do what it should; some of its connections stay open."""
    s = socket.create_connection(('127.0.0.1', PORT), timeout=10)
    try:
        s.sendall(rng.choice(ROUGH))
        if rng.random() < .4:
            s.shutdown(socket.SHUT_WR)
    except OSError:
        pass
    if rng.random() < .5:
        s.close()
    else:
        held.append(s)


def die_with_me():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def start(ctx, binary):
    for _ in range(50):
        if free(PORT):
            break
        time.sleep(.2)
    else:
        raise CheckError('port 2525 is in use')
    return subprocess.Popen([binary], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=ctx.scratch, preexec_fn=die_with_me)


def end(p, sig):
    """Send the signal; the event that says how the program ended."""
    if p.poll() is not None:
        return {'e': 'died'}
    p.send_signal(sig)
    try:
        return {'e': 'exit', 'status': p.wait(30)}
    except subprocess.TimeoutExpired:
        return {'e': 'noexit'}


SIGS = [signal.SIGTERM, signal.SIGINT]


def quick_ends(ctx, binary, n):
    """The program is told to end as soon as it listens."""
    ev = []
    for i in range(n):
        p = start(ctx, binary)
        try:
            until = time.time() + 30
            while True:
                s = socket.socket()
                ok = s.connect_ex(('127.0.0.1', PORT)) == 0
                if ok or p.poll() is not None or time.time() > until:
                    break
                s.close()
            if not ok:
                ev.append({'e': 'nolisten'})
                break
            if i % 8 == 7:
                time.sleep([.0001, .0003, .001, .003, .01][i // 8 % 5])
            ev.append(end(p, SIGS[i % 2]))
            s.close()
            if ev[-1].get('status') != 0:
                break
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
    return ev


def run(ctx, binary, hists, ends=0):
    """Run each history on a fresh process; the last events are the signal and the exit."""
    lock = open('/tmp/.verif-port-2525.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        for i, h in enumerate(hists):
            h.id = i
            h.results = {}
            h.crash = None
            rng = random.Random('%d/rough/%d' % (ctx.seed, i))
            p = start(ctx, binary)
            held, keep = [], None
            hosts = addresses()
            crowd = rng.randrange(len(h.ops)) if h.kind == 'crowd' else -1
            finish = None
            slow = next((k for k, o in enumerate(h.ops) if k >= crowd and len(web.dec(o['Body']) or b'') > 20 and not o.get('Times')), -1) if h.kind == 'crowd' else -1
            try:
                h.ev = []
                until = time.time() + 30
                while free(PORT) and time.time() < until and p.poll() is None:
                    time.sleep(.05)
                if p.poll() is not None or free(PORT):
                    h.ev.append({'e': 'nolisten'})       # no server on port 2525
                    raise StopIteration
                if i % 2:
                    # a second server cannot listen and says so
                    p2 = subprocess.Popen([binary], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=ctx.scratch, preexec_fn=die_with_me)
                    try:
                        h.ev.append({'e': 'busy', 'status': p2.wait(20)})
                    except subprocess.TimeoutExpired:
                        p2.kill()
                        p2.wait()
                        h.ev.append({'e': 'noexit'})
                for k, op in enumerate(h.ops):
                    if rng.random() < .05:
                        rough(rng, held)
                    if rng.random() < .03:
                        p.send_signal(rng.choice([signal.SIGWINCH, signal.SIGCONT, signal.SIGURG]))   # not its business
                    try:
                        if k == crowd:                  # a great many clients that say nothing, or not yet
                            for j in range(400):
                                c = socket.create_connection(('127.0.0.1', PORT), timeout=10)
                                held.append(c)
                                if j % 3 == 1:
                                    c.sendall(b'POST /obs HTTP/1.1\r\nHost: x\r\n')
                        if k == slow:
                            finish = begin_slowly(h.ops[k + 1]) if k + 1 < len(h.ops) and not h.ops[k + 1].get('Times') else None
                            h.ev.append(h.mk[k](send_slowly(op, ctx.budget(65, 125))))
                            keep = None
                        elif k == slow + 1 and finish:
                            h.ev.append(h.mk[k](finish()))
                        elif i % 3 == 0 or k == crowd:
                            h.ev.append(h.mk[k](send(op, connect(rng.choice(hosts)))))
                        else:
                            keep = keep or connect()
                            h.ev.append(h.mk[k](send(op, keep)))
                    except (OSError, http.client.HTTPException) as e:
                        h.ev.append({'e': 'noanswer'})
                        break
                h.ev.append(end(p, SIGS[i % 2]))
            except StopIteration:
                pass
            finally:
                if p.poll() is None:
                    p.kill()
                    p.wait()
                for s in held + ([keep] if keep else []):
                    s.close()
            if h.ev[-1].get('status') != 0:
                del hists[i + 1:]       # one is enough
                ends = 0
                break
        if ends:
            h = demo_hist('ends')
            h.id = len(hists)
            h.ev = quick_ends(ctx, binary, ends)
            hists.append(h)
    finally:
        lock.close()
    nums = {}
    for h in hists:
        nums.update(h.nums)
    traces = [{'cfg': {'stores': [], 'ms': web.PRECISE + web.UNIQ, 'concat': False, 'demo': True}, 'ev': h.ev} for h in hists]
    bad = ctx.validate('StarbowTrace', {'traces': traces, 'chars': CHARS, 'num': nums})
    ctx.samples.append({'events': [json.dumps(e)[:400] for e in hists[0].ev[:3] + hists[0].ev[-2:]]})
    if bad:
        t, l, out = bad
        h = hists[t]
        raise Violation('run %d (%s): event %d is not a behaviour of the specification: %s' %
                        (t, h.kind, l, json.dumps(h.ev[l] if l < len(h.ev) else None)[:1500]), {'trace': traces[t], 'rejected_event': l, 'tlc': out[-2500:]})
