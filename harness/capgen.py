"""Random HTTP exchanges to be captured."""
from gen import Gen, S, BOUNDARY
from drivers_util import gz

HOSTS = ['example.com', 'localhost', 'h1.test', '127.0.0.1', '::1', 'fe80::2', 'a-b.example.org']
PATHS = ['', '?q=1', '?u=http://y/z', '/a/b', '?a=b&c=%20d', ';p=1', '/%e2%82%ac', '?http://x/', '/http://z/']
LINES = ['HTTP/1.1 200 OK'] * 5 + ['HTTP/1.0 200 OK', 'HTTP/1.1 404 Not Found', 'HTTP/1.1 500 Oh no', 'HTTP/1.1 206 Partial Content', 'HTTP/1.1 200',
                                   'HTTP/1.1 204 No Content', 'HTTP/1.1 304 Not Modified', 'HTTP/1.1 301 Moved']
HDRS = [['X-A', 'b'], ['Set-Cookie', 'a=b; c'], ['Set-Cookie', 'd=e'], ['Content-Type', 'text/html; charset=utf-8'], ['X-Empty', ''], ['ETag', '"x:y"'],
        ['Server', 'x/1.0 (y)'], ['Date', 'Thu, 01 Jan 1970 00:00:00 GMT'], ['x-lower', '1']]


class CapGen(Gen):
    def __init__(self, r, big=0.0):
        Gen.__init__(self, r, big)
        self.n = 0
        self.pre = True
        self.where = {}

    def conn(self, *a):
        """connections to the same host and port are to the same server"""
        while True:
            d = self.conn1(*a)
            px = d.get('proxy')
            key = (px or d)['host'], (px or d)['port']
            if self.where.setdefault(key, (d['ip'], d['scheme'] == 'https' and not px)) == (d['ip'], d['scheme'] == 'https' and not px):
                return d

    def conn1(self, libs=('hc', 'hc', 'hc', 'u3s', 'rq', 'rq', 'ul')):
        r = self.r
        lib = r.choice(libs)
        scheme = 'https' if lib == 'u3s' or (lib == 'rq' and r.random() < 0.4) else 'http'
        d = {'lib': lib, 'scheme': scheme, 'host': r.choice(HOSTS + (['UP.Example'] if lib == 'hc' else [])),
             'port': r.choice([443, 8443, 80] if scheme == 'https' else [80, 80, 8080, 443, 5]), 'ip': r.choice(['127.0.0.1', '127.0.0.1', '127.0.0.2', '127.8.9.10', '127.0.0.3 127.0.0.4', '127.1.1.1 127.1.1.2 127.1.1.3'])}
        if r.random() < 0.3 and lib in ('hc', 'rq', 'ul'):
            d['proxy'] = {'host': r.choice(['proxy.test', '127.0.0.1', '::1', 'p2.test'] if lib != 'ul' else ['proxy.test', '127.0.0.1']), 'port': r.choice([3128, 80, 443, 8888])}
        return d

    def body(self):
        r = self.r
        if r.random() < self.big:
            self.nblob += 1
            return [r.choice(['', 'x', '\r\n']), [self.nblob, r.choice([16383, 16384, 16385, 32768, 50000, 524288, 600000, 2500000])], r.choice(['', '\n'])]
        k = r.randrange(12)
        return [{0: '', 1: 'a', 2: '\r\n', 3: '\r\n\r\n', 4: BOUNDARY, 5: '\r\n\r\n' + BOUNDARY, 6: S(gz(b'inner')), 7: 'HTTP/1.1 200 OK\r\nA: b\r\n\r\nx', 8: '\n\n'}.get(
            k) if k < 9 else self.lines(r.choice([5, 30, 200]))]

    def ex(self, c, d, simple=False):
        """an exchange over connection number c (d: what it is)"""
        r = self.r
        self.n += 1
        lib = d['lib']
        path = '/e%dx' % self.n + r.choice(PATHS)
        x = {'n': self.n, 'conn': c, 'method': r.choice(['GET'] * 6 + ['POST', 'POST', 'PUT', 'HEAD', 'DELETE', 'OPTIONS', 'PATCH', 'PROPFIND', 'GETX', 'TRACE']), 'target': path, 'hdrs': []}
        if lib == 'hc' and d.get('proxy'):
            h = '[%s]' % d['host'] if ':' in d['host'] else d['host']
            if r.random() < 0.75:
                x['target'] = 'http://' + h + ('' if d['port'] == 80 else ':%d' % d['port']) + path
        if simple:
            x['method'] = r.choice(['GET', 'GET', 'POST'])
        names = set()
        for _ in range(r.randrange(3)):
            h = r.choice([['X-Own', 'a'], ['User-Agent', 'me'], ['X-B', 'c: d'], ['Accept', '*/*'], ['X-Empty', ''] if lib in ('hc', 'u3s') else ['X-C', 'd']])
            if h[0] not in names:
                names.add(h[0])
                x['hdrs'].append(h)
        if x['method'] in ('POST', 'PUT', 'PATCH', 'PROPFIND'):
            x['body'] = self.body()
            big = any(not isinstance(p, str) for p in x['body'])
            x['kind'] = r.choice(['bytes', 'bytes', 'str', 'file'] + ([] if big else ['iter', 'steps']))
            if lib == 'rq' and x['body'] == ['']:
                x['body'] = ['z']
            if x['kind'] == 'iter' and x['body'] == ['']:
                x['body'] = ['y']
            if lib in ('hc', 'u3s') and x['kind'] in ('file', 'iter', 'steps') and any('content-length' == h[0].lower() for h in x['hdrs']):
                x['kind'] = 'bytes'
            if lib == 'hc' and x['kind'] == 'file' and big:
                x['kind'] = 'bytes'
        elif lib in ('hc', 'u3s') and r.random() < 0.2:
            x['kind'] = 'steps'
        line = r.choice(LINES if not simple else LINES[:7])
        res = {'line': line, 'hdrs': [list(h) for h in r.sample(HDRS, r.randrange(0, 4))], 'body': self.body()}
        big = any(not isinstance(p, str) for p in res['body'])
        if r.random() < 0.04 and lib == 'hc':
            res['hdrs'].append(['X-Long', 'v' * r.choice([9000, 16375, 16384, 20000, 40000])])
        if ' 204' in line or ' 304' in line:
            res['framing'], res['body'] = 'none', ['']
        elif 'HTTP/1.0' in line:
            res['framing'] = r.choice(['len', 'eof'])
            res['close'] = True
        else:
            res['framing'] = r.choice(['len', 'len', 'chunked', 'chunked', 'eof'])
            res['close'] = r.random() < 0.2
        if res['framing'] == 'eof':
            res['sayclose'] = r.random() < 0.5 or x['method'] == 'HEAD'
        if res['framing'] == 'chunked':
            res['chunks'] = [] if big else [r.choice([1, 2, 5, 40, 300]) for _ in range(r.randrange(1, 4))]
            if lib in ('hc', 'u3s') and r.random() < 0.2:
                res['trailers'] = r.choice([['X-Trailer: t'], ['X-Trailer: ' + 't' * 90, 'B: c']])
        if lib in ('hc', 'u3s') and self.pre and r.random() < 0.1:
            res['pre'] = r.choice([1, 2])
        if r.random() < 0.3 and not big:
            res['piece'] = r.choice([1, 3, 50])
        x['res'] = res
        return x

    def reads(self, x, d):
        """ways of reading the whole response"""
        r = self.r
        big = any(not isinstance(p, str) for p in x['res']['body'])
        lib = d['lib']
        if big:
            return [r.choice([['all', -1], ['reads', 10000], ['intos', 16384], ['read1s', 100000], ['content', -1], ['stream', 8192]] if lib != 'rq'
                             else [['content', -1], ['stream', 8192], ['reads', 10000], ['read', -1]])] if lib != 'rq' else [r.choice([['content', -1], ['stream', 8192], ['read', -1]])]
        if lib == 'rq':
            return r.choice([[['content', -1]], [['stream', r.choice([1, 7, 64, 1000])]], [['read', -1], ['read', -1]], [['read', 3], ['read', 1], ['read', -1], ['read', -1]], [['read', 5], ['stream', 4]]]
                            if x['res']['framing'] != 'chunked' else [[['content', -1]], [['stream', r.choice([1, 7, 64, 1000])]], [['read', -1], ['read', -1]]])
        k = r.randrange(9)

        def some():
            how, n = r.choice(['read', 'read', 'line', 'into', 'read1', 'peek']), r.choice([0, 1, 2, 5, 30, 500])
            # http.client: no limit for lines of chunked data, no end for peek
            if how == 'line' and x['res']['framing'] == 'chunked':
                n = -1
            return [how if how != 'peek' or x['res']['framing'] in ('chunked', 'eof') else 'read', n]
        if k == 0:
            return [['all', -1]]
        if k == 1:
            return [[r.choice(['reads', 'intos', 'read1s']), r.choice([1, 2, 7, 100])]]
        if k == 2:
            return [['lines', -1]]
        if k == 3:
            return [['readlines', -1]]
        if k == 4:
            return [['read', -1], ['read', -1], ['read', 1]]
        return [some() for _ in range(r.randrange(1, 6))] + [r.choice([['all', -1], ['reads', 11], ['readlines', -1]])]
