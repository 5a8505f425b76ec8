"""Captures HTTP traffic of several threads with a scripted server (C13, C14)."""
import array
import hashlib
import io
import os
import queue
import re
import shutil
import socket
import ssl
import sys
import tempfile
import threading
import time
from warcio.capture_http import capture_http
from warcio.warcwriter import WARCWriter, BufferWARCWriter
import http.client as hc
import urllib.error
import urllib.request
import requests
import urllib3
from core import T, H
from drivers.archive import Blobs, text, L, segments
from drivers.writer import iso, w_all, plain as gunzip, WHOLE

urllib3.disable_warnings()
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')


# ---- the server
class Server(object):
    def __init__(self):
        self.scripts, self.got, self.at, self.lock, self.hung = {}, {}, {}, threading.Lock(), False
        self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        self.ctx.load_cert_chain(os.path.join(DATA, 'cert.pem'), os.path.join(DATA, 'key.pem'))
        self.ports = {}
        for tls in (False, True):
            s = socket.socket()
            s.bind(('0.0.0.0', 0))
            s.listen(64)
            self.ports[tls] = s.getsockname()[1]
            threading.Thread(target=self.accept, args=(s, tls), daemon=True).start()

    def accept(self, s, tls):
        while True:
            c, _ = s.accept()
            threading.Thread(target=self.serve, args=(c, tls), daemon=True).start()

    def serve(self, c, tls):
        try:
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if tls:
                c = self.ctx.wrap_socket(c, server_side=True)
            while True:
                buf = bytearray()
                head = self.head(c, buf)
                if not head:
                    return
                if head.startswith(b'CONNECT '):
                    c.sendall(b'HTTP/1.1 200 Connection established\r\nX-Proxy: y\r\n\r\n')
                    if self.is_tls(c):
                        c = self.ctx.wrap_socket(c, server_side=True)
                    continue
                self.body(c, buf, head)
                m = re.search(rb'/e(\d+)x', head.split(b'\r\n')[0])
                k = int(m.group(1))
                sc = self.scripts[k]
                with self.lock:
                    self.got[k] = bytes(buf)
                    self.at[k] = c.getsockname()[0]
                for p in sc['pieces']:
                    c.sendall(p)
                if sc['close']:
                    return
        except (OSError, KeyError, AttributeError):
            pass
        finally:
            try:
                if isinstance(c, ssl.SSLSocket):
                    c = c.unwrap()
            except (OSError, ValueError):
                pass
            try:
                c.close()
            except OSError:
                pass

    def is_tls(self, c):
        return c.recv(1, socket.MSG_PEEK) == b'\x16'

    def more(self, c, buf):
        d = c.recv(65536)
        if not d:
            raise OSError()
        buf += d

    def head(self, c, buf):
        while b'\r\n\r\n' not in buf:
            d = c.recv(65536)
            if not d:
                return None
            buf += d
        return bytes(buf[:buf.index(b'\r\n\r\n') + 4])

    def body(self, c, buf, head):
        n = len(head)
        m = re.search(rb'\r\ncontent-length: *(\d+)', head, re.I)
        if m:
            while len(buf) < n + int(m.group(1)):
                self.more(c, buf)
        elif re.search(rb'\r\ntransfer-encoding: *chunked', head, re.I):
            while not (b'\r\n0\r\n\r\n' in buf[n - 2:]):
                self.more(c, buf)


SERVER = None
HOSTS = {}
real_getaddrinfo = socket.getaddrinfo


def getaddrinfo(host, port, *a, **k):
    if isinstance(host, bytes):
        host = host.decode()
    x = HOSTS.get((host, port))
    if x:
        # a host with several addresses: a different one each time
        x[0].append(x[0].pop(0))
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', (x[0][-1], x[1]))]
    return real_getaddrinfo(host, port, *a, **k)


# ---- an output that a thread may be stopped in
class PausingOut(io.BytesIO):
    def __init__(self, pre=b''):
        io.BytesIO.__init__(self)
        io.BytesIO.write(self, pre)

    def write(self, b):
        me = PAUSE.get(threading.get_ident())
        if me and me['left'] > 0:
            me['left'] -= 1
            if me['left'] == 0:
                me['paused'].set()
                me['go'].wait(20)
        return io.BytesIO.write(self, b)


PAUSE = {}


class Stop(Exception):
    pass


class BaseStop(BaseException):
    pass


class Hang(Exception):
    pass


EXCS = {'': None, 'Stop': Stop, 'BaseStop': BaseStop, 'KeyError': KeyError}


class Thread(object):
    def __init__(self):
        self.q, self.pending = queue.Queue(), None
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        while True:
            job = self.q.get()
            if job is None:
                return
            try:
                job['f']()
            except BaseException as e:
                job['err'] = e
            job['done'].set()

    def call(self, f):
        job = {'f': f, 'done': threading.Event(), 'err': None}
        self.q.put(job)
        return job


def filter_func(kind):
    if not kind or kind == 'none':
        return None

    def func(request, response, recorder):
        assert request.rec_type == 'request' and response.rec_type == 'response'
        if kind == 'skip':
            return None, None
        if kind == 'noreq':
            return None, response
        if kind == 'noresp':
            return request, None
        if kind == 'status' and response.http_headers.get_statuscode() != '200':
            return None, None
        if kind == 'header':
            request.rec_headers.add_header('X-Filter', 'req')
            response.rec_headers.add_header('X-Filter', 'resp')
        if kind == 'revisit':
            uri = response.rec_headers.get_header('WARC-Target-URI')
            response = recorder.writer.create_revisit_record(uri, 'sha1:XYZ', uri, '2020-01-02T03:04:05Z', http_headers=response.http_headers)
        return request, response
    return func


def chunk(data, sizes, trailers):
    if not sizes:
        sizes = [max(1, len(data))]
    out, pos, i = b'', 0, 0
    while pos < len(data):
        n = sizes[i % len(sizes)]
        d = data[pos:pos + n]
        out += (b'%x' if i % 2 else b'%X') % len(d) + (b';ext=1' if i % 5 == 4 else b'') + b'\r\n' + d + b'\r\n'
        pos += n
        i += 1
    return out + b'0\r\n' + b''.join(L(t) + b'\r\n' for t in trailers) + b'\r\n'


def response_bytes(x, method):
    """-> (bytes sent, body as the application sees it, headers, close after)"""
    r = x['res']
    body = text(r.get('body') or '')
    hs = [list(h) for h in r.get('hdrs', [])]
    how = r['framing']
    wire = body
    if how == 'len':
        hs.append(['Content-Length', str(len(body))])
    elif how == 'chunked':
        hs.append(['Transfer-Encoding', 'chunked'])
        wire = chunk(body, r.get('chunks'), r.get('trailers', []))
    close = r.get('close', False) or how == 'eof'
    if close and how != 'eof' or how == 'eof' and r.get('sayclose'):
        hs.append(['Connection', 'close'])
    if method == 'HEAD' or how == 'none':
        wire = body = b''
    pre = b'HTTP/1.1 100 Continue\r\n\r\n' * r.get('pre', 0)
    if r.get('rawhead') is not None:
        head = L(r['rawhead'])
    else:
        head = L(r['line']) + b'\r\n' + b''.join(L(n) + b': ' + L(v) + b'\r\n' for n, v in hs) + b'\r\n'
    if r.get('cut') is not None:
        wire = wire[:max(0, len(wire) - r['cut'])]
        close = True
    return pre + head + wire, body, hs, close


class ShortIO(object):
    """a source that returns less than asked for"""
    def __init__(self, b):
        self.f = io.BytesIO(b)

    def read(self, n=-1):
        return self.f.read(max(1, len(self.f.getvalue()) // 3) if n < 0 or n > 1 else n)


def plain(b):
    return b if b[:1] != b'\x1f' else gunzip(b)


# what can be sent
SEND = [bytes, io.BytesIO, lambda z: array.array('B', z), bytearray, memoryview, lambda z: io.StringIO(z.decode('latin-1'), newline=''), ShortIO,
        lambda z: [z[:1], z[1:]], lambda z: iter([z[:2], bytearray(z[2:])]), lambda z: (memoryview(z),)]


# ---- clients
class Client(object):
    def __init__(self, s, n, d):
        self.d = d
        self.c = self.sess = None
        tls = d['scheme'] == 'https'
        px = d.get('proxy')
        HOSTS[(px or d)['host'], (px or d)['port']] = (d.get('ip', '127.0.0.1').split(), SERVER.ports[tls and not px])

    def hostport(self):
        d = self.d
        h = '[%s]' % d['host'] if ':' in d['host'] else d['host']
        return h + ('' if d['port'] == (443 if d['scheme'] == 'https' else 80) else ':%d' % d['port'])

    def open(self):
        d = self.d
        px = d.get('proxy')
        if d['lib'] == 'hc':
            self.c = hc.HTTPConnection(*((px['host'], px['port']) if px else (d['host'], d['port'])), timeout=8)
        elif d['lib'] == 'u3s':
            # urllib3's connection for https, used as one of http.client
            self.c = urllib3.connection.HTTPSConnection(d['host'], d['port'], timeout=8)
            self.c.set_cert(cert_reqs='CERT_NONE', assert_hostname=False)
        elif d['lib'] == 'rq':
            self.sess = requests.Session()
            self.sess.trust_env = False
            if px:
                p = 'http://%s:%d' % ('[%s]' % px['host'] if ':' in px['host'] else px['host'], px['port'])
                self.sess.proxies = {'http': p, 'https': p}

    def request(self, x):
        d = self.d
        lib = d['lib']
        if lib in ('hc', 'u3s'):
            if self.c is None:
                self.open()
            c = self.c
            body = x.get('body')
            b = text(body) if body is not None else None
            kind = x.get('kind', 'bytes')
            hs = dict(x.get('hdrs', []))
            if kind == 'steps':
                c.putrequest(x['method'], x['target'], skip_host=bool(x.get('skip_host')), skip_accept_encoding=True)
                for n, v in hs.items():
                    c.putheader(n, v)
                if b is not None:
                    c.putheader('Content-Length', str(len(b)))
                c.endheaders()
                if b:
                    k = max(1, len(b) // 3)
                    for i in range(0, len(b), k):
                        p = b[i:i + k]
                        c.send(SEND[(i // k + x['n']) % len(SEND)](p))
            else:
                if b is not None:
                    if kind == 'file':
                        b = [io.BytesIO, ShortIO, lambda z: io.StringIO(z.decode('latin-1'), newline='')][x['n'] % 3](b)
                    elif kind == 'iter':
                        k = max(1, len(b) // 3)
                        b = iter([b[i:i + k] for i in range(0, len(b), k)])
                    elif kind == 'str':
                        b = b.decode('latin-1')
                c.request(x['method'], x['target'], body=b, headers=hs)
        else:
            body = x.get('body')
            b = text(body) if body is not None else None
            url = x['target'] if x['target'].startswith('http') else d['scheme'] + '://' + self.hostport() + x['target']
            if lib == 'rq':
                if self.sess is None:
                    self.open()
                if b is not None and x.get('kind') == 'iter':
                    b = iter([b[:3], b[3:]]) if len(b) > 3 else iter([b])
                elif b is not None and x.get('kind') == 'file':
                    b = io.BytesIO(b)
                x['_r'] = self.sess.request(x['method'], url, headers=dict(x.get('hdrs', [])), data=b, stream=True, verify=False,
                                            allow_redirects=False, timeout=8)
            else:
                px = d.get('proxy')
                op = urllib.request.build_opener(urllib.request.ProxyHandler({'http': 'http://%s:%d' % (px['host'], px['port'])} if px else {}))
                rq = urllib.request.Request(url, data=b, headers=dict(x.get('hdrs', [])), method=x['method'])
                try:
                    x['_r'] = op.open(rq, timeout=8)
                except urllib.error.HTTPError as e:
                    x['_r'] = e

    def response(self, x):
        lib = self.d['lib']
        if lib in ('hc', 'u3s'):
            r = x['_r'] = self.c.getresponse()
            return '%d %s' % (r.status, r.reason) if r.reason else '%d' % r.status, [[n, v] for n, v in r.getheaders()]
        r = x['_r']
        if lib == 'rq':
            return '%d %s' % (r.status_code, r.reason) if r.reason else '%d' % r.status_code, []
        return '%d %s' % (r.status, r.reason) if r.reason else '%d' % r.status, []


def read(r, how, n):
    raw = getattr(r, 'raw', None) if isinstance(r, requests.Response) else None
    if raw is not None:
        if how == 'stream':
            return b''.join(raw.stream(n if n > 0 else 64, decode_content=False))
        if how == 'lines':
            return b''.join(raw)
        if how == 'content':
            return r.content
        if n < 0:
            return raw.read(decode_content=False)
        return raw.read(n, decode_content=False)
    if how in ('stream', 'content'):
        how = 'all'
    if how == 'read':
        return r.read() if n < 0 else r.read(n)
    if how == 'into':
        b = bytearray(n)
        k = r.readinto(b)
        return bytes(b[:k])
    if how == 'read1':
        return r.read1(n)
    if how == 'line':
        return r.readline(n)
    if how == 'peek':
        return r.peek(n)
    if how == 'lines':
        return b''.join(r)
    out = b''
    while True:
        d = r.read(n) if how == 'reads' else r.read1(n) if how == 'read1s' else r.readline() if how == 'readlines' else into(r, n) if how == 'intos' else r.read()
        if not d:
            return out
        out += d


def into(r, n):
    b = bytearray(n)
    return bytes(b[:r.readinto(b)])


def run(s, again=False):
    global SERVER
    if SERVER is None or SERVER.hung:
        SERVER = Server()
        socket.getaddrinfo = getaddrinfo
    tmp = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    threads = [Thread() for _ in range(s['threads'])]
    try:
        r = Run(s, tmp, threads)
        try:
            case = r.go()
        except Hang:
            return r.case()
        if not again and any(WHOLE.search(plain(r.total(d))) for d in r.tg if d['kw'].get('warc_version') == '1.1'):
            return run(s, True)
        return case
    finally:
        HOSTS.clear()
        for t in threads:
            t.q.put(None)
        shutil.rmtree(tmp, ignore_errors=True)


class Run(object):
    def __init__(self, s, tmp, threads):
        self.s, self.threads, self.evs = s, threads, []
        specs = set()
        for x in s['exs']:
            for b in (x.get('body'), x['res'].get('body')):
                if b is not None and not isinstance(b, str):
                    specs |= {tuple(p) for p in b if not isinstance(p, str)}
        self.blobs = Blobs(sorted(specs))
        SERVER.scripts.clear()
        SERVER.got.clear()
        SERVER.at.clear()
        self.exs = [dict(x) for x in s['exs']]
        for e, x in enumerate(self.exs):
            x['_sent'], x['_body'], x['_hdrs'], close = response_bytes(x, x['method'])
            n = x['res'].get('piece') or len(x['_sent'])
            SERVER.scripts[x['n']] = {'pieces': [x['_sent'][i:i + n] for i in range(0, len(x['_sent']), n)], 'close': close}
        self.clients = [Client(s, i, d) for i, d in enumerate(s['conns'])]
        self.tg = []
        for i, t in enumerate(s['targets']):
            pre = L(t.get('pre', ''))
            d = {'kind': t['kind'], 'seen': len(pre), 'pre': pre, 'kw': dict(t.get('kw', {})), 'w': None}
            if t['kind'] in ('path', 'new'):
                d['path'] = os.path.join(tmp, 't%d.warc' % i)
                d['pre'] = pre
                if t.get('there'):
                    with open(d['path'], 'wb') as f:
                        f.write(pre)
                else:
                    d['seen'] = 0
            elif t['kind'] == 'writer':
                d['out'] = PausingOut(pre)
                d['w'] = WARCWriter(d['out'], **d['kw'])
            elif t['kind'] == 'buffer':
                d['w'] = BufferWARCWriter(**d['kw'])
                d['seen'] = 0
            else:
                d['seen'] = 0
            self.tg.append(d)
        self.cm = {}
        self.data = []
        self.extra = []
        self.micro = {}

    def total(self, d):
        if d['kind'] in ('path', 'new'):
            if not os.path.exists(d['path']):
                return b''
            with open(d['path'], 'rb') as f:
                return f.read()
        if d['kind'] == 'writer':
            return d['out'].getvalue()
        return w_all(d['w']) if d['w'] is not None else b''

    def ev(self, op, **k):
        k['op'] = op
        self.evs.append(k)
        return k

    def gzip(self, i):
        t = self.s['targets'][i]
        return t.get('kw', {}).get('gzip', t['kind'] not in ('auto',))

    def look(self, final=False):
        grow = []
        for i, d in enumerate(self.tg):
            now = self.total(d)
            pre = d['pre'] if d['kind'] in ('path', 'new', 'writer') else b''
            new = now[d['seen']:]
            kept = now[:len(d.get('last', pre))] == d.get('last', pre)
            d['last'] = now
            d['seen'] = len(now)
            if new or not kept:
                texts, rest = self.split(new, self.gzip(i))
                grow.append({'k': i + 1, 'texts': texts, 'rest': rest, 'kept': kept})
        self.ev('look', grow=grow)

    def split(self, b, gz):
        import zlib
        if not b:
            return [], False
        if not gz:
            self.hashes(b)
            return [self.blobs.enc(b)], False
        segs = segments(b, 0, self.blobs.enc)
        ok, rest = [], False
        for g in segs:
            m = b[g['coff']:g['coff'] + g['clen']]
            d = zlib.decompressobj(31)
            t = b''
            try:
                t = d.decompress(m)
            except zlib.error:
                pass
            if g['gz'] and d.eof:
                ok.append(g['text'])
                self.hashes(t)
            else:
                rest = True
        return ok, rest

    def hashes(self, t):
        for part in re.split(rb'(?=WARC/1\.[01]\r\n)', t):
            i = part.find(b'\r\n\r\n')
            if i >= 0 and part.endswith(b'\r\n\r\n'):
                b = part[i + 4:-4]
                self.data.append(b)
                j = b.find(b'\r\n\r\n')
                if j >= 0:
                    self.data.append(b[j + 4:])

    # ---- operations, each run in its thread
    def do_enter(self, t, i):
        x = self.s['ctxs'][i - 1]
        d = self.tg[x['target'] - 1]
        f = filter_func(x.get('filter'))
        k = {'record_ip': x['ip']} if not x.get('ipdefault') else {}
        if d['kind'] in ('path', 'new'):
            args = (d['path'],)
            k.update(d['kw'])
            if d['kind'] == 'new':
                k['append'] = False
        elif d['kind'] == 'auto' and d['w'] is None:
            args = () if x.get('noargs') else (None,)
            k.update(d['kw'])
        else:
            args = (d['w'],)
        if f and args:
            args += (f,)
        elif f:
            k['filter_func'] = f
        ev = {'op': 'enter', 't': t, 'ctx': i, 'exc': ''}
        try:
            cm = capture_http(*args, **k)
            w = cm.__enter__()
            if d['kind'] == 'auto':
                d['w'] = w
            self.cm.setdefault(t, []).append(cm)
        except OSError:
            ev['exc'] = 'os'
        except Exception as e:
            ev['exc'] = type(e).__name__
        if ev['exc']:
            self.cm.setdefault(t, []).append(None)
        self.evs.append(ev)

    def do_exit(self, t, exc):
        got = ''
        cm = self.cm[t].pop()
        if cm is None:
            return            # was refused
        try:
            if exc:
                e = EXCS[exc](exc)
                try:
                    raise e
                except BaseException:
                    if cm.__exit__(*sys.exc_info()):
                        got = 'suppressed'
                    else:
                        got = exc
            else:
                cm.__exit__(None, None, None)
        except BaseException as e2:
            got = type(e2).__name__
        self.ev('exit', t=t, exc=exc, got=got)

    def do_open(self, t, c):
        # requests and urllib open their connections only with the request
        if self.clients[c - 1].d['lib'] in ('hc', 'u3s'):
            self.clients[c - 1].open()
            self.ev('open', t=t, c=c)

    def do_req(self, t, e):
        x = self.exs[e - 1]
        ev = {'op': 'req', 't': t, 'e': e, 'exc': ''}
        try:
            self.clients[x['conn'] - 1].request(x)
        except Exception as ex:
            ev['exc'] = type(ex).__name__ + ': ' + str(ex)[:80]
        self.evs.append(ev)

    def do_get(self, t, e):
        x = self.exs[e - 1]
        ev = {'op': 'got', 'e': e, 'exc': '', 'status': [], 'hdrs': []}
        try:
            st, hs = self.clients[x['conn'] - 1].response(x)
            ev['status'], ev['hdrs'] = T(st), H(hs if x['res'].get('rawhead') is None else [])
        except Exception as ex:
            ev['exc'] = type(ex).__name__ + ': ' + str(ex)[:80]
        self.evs.append(ev)

    HOW = {'read': 'read', 'line': 'line', 'into': 'some', 'read1': 'some', 'peek': 'peek'}

    def do_read(self, t, e, how, n):
        x = self.exs[e - 1]
        h = self.HOW.get(how, 'all')
        if '_r' in x and isinstance(x['_r'], requests.Response) and how in ('into', 'read1', 'line', 'peek'):
            how = h = 'read'
        ev = {'op': 'read', 'e': e, 'how': h, 'n': n, 'out': [], 'exc': ''}
        try:
            if '_r' not in x:
                return
            ev['out'] = self.blobs.enc(read(x['_r'], how, n))
        except Exception as ex:
            ev['exc'] = type(ex).__name__ + ': ' + str(ex)[:80]
        self.evs.append(ev)

    def do_close(self, t, e):
        x = self.exs[e - 1]
        ev = {'op': 'close', 'e': e, 'exc': ''}
        try:
            if '_r' in x:
                x['_r'].close()
        except Exception as ex:
            ev['exc'] = type(ex).__name__ + ': ' + str(ex)[:80]
        self.evs.append(ev)

    def do_fin(self, t, e, reads):
        for how, n in reads:
            self.do_read(t, e, how, n)
        self.do_close(t, e)

    # ---- the schedule
    def go(self):
        self.t0 = iso(False, 0), iso(True, 0)
        paused, waiting = {}, []
        for op in self.s['ops']:
            name, t = op[0], op[1]
            th = self.threads[t - 1]
            if name == 'resume':
                p = paused.pop(t, None)
                if p is None:
                    continue
                p[1]['go'].set()
                self.wait(p[0])
                PAUSE.pop(th.t.ident, None)
                if not paused:
                    for j in waiting:
                        self.wait(j)
                    waiting = []
                    self.look()
                continue
            if th.pending is not None:
                self.wait(th.pending)
                th.pending = None
            args = op[2:]
            if name == 'pause':
                # op: ['pause', t, nth write, 'fin', ...]
                pz = {'left': op[2], 'paused': threading.Event(), 'go': threading.Event()}
                PAUSE[th.t.ident] = pz
                job = th.call(lambda: getattr(self, 'do_' + op[3])(t, *op[4:]))
                end = time.time() + (0.1 if paused else 15)
                while not job['done'].is_set() and not pz['paused'].is_set() and time.time() < end:
                    job['done'].wait(0.001)
                if not job['done'].is_set() and not pz['paused'].is_set() and paused:
                    paused[t] = job, pz         # waits for another one, it seems
                    continue
                if job['done'].is_set() or not pz['paused'].is_set():
                    self.wait(job)
                    PAUSE.pop(th.t.ident, None)
                else:
                    paused[t] = job, pz
                    continue
            else:
                job = th.call(lambda: getattr(self, 'do_' + name)(t, *args))
                if paused:
                    if not job['done'].wait(0.08):
                        # waits for the paused thread, it seems
                        th.pending = job
                        waiting.append(job)
                        continue
                else:
                    self.wait(job)
            if job['err'] is not None:
                raise job['err']
            if not paused and name not in ('req', 'get', 'read', 'open'):
                self.look()
        for t, (job, pz) in paused.items():
            pz['go'].set()
            self.wait(job)
        for j in waiting:
            self.wait(j)
        for t in list(self.cm):
            while self.cm[t]:
                self.wait(self.threads[t - 1].call(lambda: self.do_exit(t, '')))
        self.look()
        for c in self.clients:
            for z in (c.c, c.sess):
                if z is not None:
                    z.close()
        self.look()
        return self.case()

    def wait(self, job):
        if not job['done'].wait(15):
            self.ev('hang')
            SERVER.hung = True
            raise Hang()
        if job['err'] is not None:
            raise job['err']

    def case(self):
        s, enc = self.s, self.blobs.enc
        exs = []
        for x in self.exs:
            with SERVER.lock:
                req = SERVER.got.get(x['n'], b'')
            self.data += [req, x['_sent']]
            for b in (req, x['_sent']):
                i = b.find(b'\r\n\r\n')
                if i >= 0:
                    self.data += [b[i + 4:], b[:i + 4]]
            line = (x['res']['rawhead'].split('\n')[0] if x['res'].get('rawhead') else x['res']['line']).rstrip('\r')
            sent = req.split(b'\r\n')[0].split(b' ')
            exs.append({'conn': x['conn'], 'ip': T(SERVER.at.get(x['n'], '')), 'target': T(sent[1].decode('latin-1') if len(sent) > 1 else x['target']), 'req': enc(req), 'res': enc(x['_sent']),
                        'body': enc(x['_body']), 'status': T(line.split(' ', 1)[1]), 'hdrs': H(x['_hdrs']),
                        'fixed': x['method'] == 'HEAD' or x['res']['framing'] in ('len', 'none'), 'cut': x['res'].get('cut') is not None})
        env, have = [], set()
        for d in self.data + [b'']:
            if d not in have:
                have.add(d)
                env.append({'alg': T('sha1'), 'data': enc(d), 'dig': list(hashlib.sha1(d).digest())})
        targets = []
        for i, t in enumerate(s['targets']):
            v = t.get('kw', {}).get('warc_version', '1.0')
            targets.append({'gzip': self.gzip(i), 'proto': T('WARC/' + v), 'kind': t['kind'] if t['kind'] in ('path', 'new') else 'mem', 'there': bool(t.get('there'))})
        conns = []
        for d in s['conns']:
            px = d.get('proxy')
            conns.append({'scheme': T(d['scheme']), 'host': T(d['host']), 'port': d['port'], 'dport': 443 if d['scheme'] == 'https' else 80,
                          'proxy': {'kind': ('tunnel' if d['scheme'] == 'https' else 'plain') if px else 'none',
                                    'host': T(px['host']) if px else [], 'port': px['port'] if px else 0}})
        return {'prop': s['prop'], 'threads': s['threads'], 'targets': targets,
                'ctxs': [{'target': c['target'], 'filter': c.get('filter') or 'none', 'ip': bool(c['ip'])} for c in s['ctxs']],
                'conns': conns, 'exs': exs, 'env': env, 't0': T(self.t0[0]), 't1': T(iso(False, 0)), 'm0': T(self.t0[1]), 'm1': T(iso(True, 0)), 'evs': self.evs}
