"""Random records to be written."""
from gen import Gen, S, BOUNDARY
from drivers_util import gz

TYPES = ['response'] * 5 + ['request'] * 2 + ['resource', 'metadata', 'warcinfo', 'revisit', 'conversion', 'continuation', 'x-own']
STATUS = ['200 OK', '404 Not Found', '301', '200', '206 Partial Content', '500 \xe9chec', '200 O  K', '200 \u20ac']
NAMES = ['X-A', 'x-b', 'Content-Type', 'Set-Cookie', 'Set-Cookie', 'Content-Length', 'Transfer-Encoding', 'Content-Encoding', 'X-Empty', 'Link', 'ETag', 'Content-Disposition']
VALUES = ['b', 'text/html; charset=utf-8', 'a=b; c', '', '99', 'chunked', 'gzip', 'a:b: c', '"x"', 'caf\xe9', '\u4e2d\u6587', 'attachment; filename="\xe9t\xe9.txt"',
          'attachment; filename=\u20ac.txt; x=y', 'a\tb', 'x' * 300, '<http://x/>; rel="a"; title="\xfc"', '%20%', "it's; a='\xe9'"]
WNAMES = ['X-Own', 'WARC-IP-Address', 'WARC-Concurrent-To', 'WARC-Refers-To', 'WARC-Identified-Payload-Type', 'WARC-Warcinfo-ID', 'X-\xc9t\xe9', 'WARC-Truncated']
WVALUES = ['a', '1.2.3.4', '<urn:uuid:00000000-0000-4000-8000-000000000001>', 'text/html', '\u20ac \xe9', 'a: b', '', 'x' * 200, 'length']


class WGen(Gen):
    def body(self):
        """payload pieces"""
        r = self.r
        if r.random() < self.big:
            self.nblob += 1
            n = r.choice([16383, 16384, 16385, 32768, 49153, 524287, 524288, 524289, 600000, 1100000, 2500000])
            return [r.choice(['', 'x', '\r\n']), [self.nblob, n], r.choice(['', '\n', 'tail'])]
        k = r.randrange(13)
        return [{0: '', 1: 'a', 2: '\r\n', 3: '\r\n\r\n', 4: BOUNDARY, 5: '\r\n\r\n' + BOUNDARY, 6: S(gz(b'inner data\n')), 7: '\n' * r.randrange(1, 6),
                 8: 'HTTP/1.1 200 OK\r\nA: b\r\n\r\nx', 9: S(gz(BOUNDARY.encode())), 10: '\x1f\x8b'}.get(k) if k < 11 else self.lines(r.choice([5, 30, 100, 400]))]

    def httphead(self, typ):
        r = self.r
        if typ == 'request':
            proto = r.choice(['GET', 'POST', 'HEAD', 'PUT', 'DELETE', 'OPTIONS', 'PATCH'])
            status = r.choice(['/ HTTP/1.1', '/a?b=c&d HTTP/1.0', '* HTTP/1.1', '/\xe9 HTTP/1.1', 'http://x/y HTTP/1.1'])
        else:
            proto, status = r.choice(['HTTP/1.0', 'HTTP/1.1', 'HTTP/1.1']), r.choice(STATUS)
        hs = [[r.choice(NAMES), r.choice(VALUES)] for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        return {'proto': proto, 'status': status, 'hdrs': hs}

    def embed(self, h, canonical=True):
        """header bytes as they may be in a payload (latin-1 string of bytes)"""
        r = self.r
        nl = '\r\n' if canonical else r.choice(['\n', '\r\n'])
        t = h['proto'] + ' ' + h['status'] + nl
        for n, v in h['hdrs']:
            t += n + (': ' if canonical else r.choice([':', ': ', ':  ', ' : '])) + v + nl
            if not canonical and v and r.random() < 0.2:
                t += r.choice([' ', '\t']) + 'folded' + nl
        t += nl
        return S(t.encode('utf-8'))

    def src(self, big=False):
        r = self.r
        k = r.choice(['bytes'] * 4 + ['plain', 'noseek', 'short', 'file', 'limit', 'buffered', 'iobuf'])
        return [k, r.choice(['', '', 'pre', '\r\n', 'HTTP/1.1 200 OK\r\n']) if k not in ('plain', 'buffered') else ''], \
            [r.choice([4000, 20000] if big else [1, 2, 5, 50]) for _ in range(r.randrange(1, 3))]

    def rec(self, typ=None, **k):
        """one record to write"""
        r = self.r
        kind = k.get('kind') or r.choice(['plain'] * 10 + ['info', 'revisit'])
        if kind == 'info':
            return {'kind': 'info', 'uri': '', 'filename': r.choice(['a.warc.gz', '', 'caf\xe9.warc', None]),
                    'info': [[n, r.choice(['x', 'a: b', '\xe9t\xe9', '', 'long ' * 50, '1', 'v', 1, 0, -3, 2.5, True, False, None, 10 ** 30])] for n in
                             r.sample(['software', 'format', 'conformsTo', 'robots', 'operator', 'num\xe9ro'], r.randrange(0, 5))]}
        if kind == 'revisit':
            return {'kind': 'revisit', 'uri': r.choice(['http://x/', 'https://x/\xe9', 'ftp://a/']), 'digest': r.choice(['sha1:3I42H3S6NNFQ2MSVX7XZKYAYSCX5QBYJ', 'md5:x']),
                    'ruri': r.choice(['http://y/', 'http://y/a?b']), 'rdate': '2020-01-02T03:04:05Z',
                    'http': self.httphead('response') if r.random() < 0.6 else None,
                    'given': r.choice([None, [['X-Own', 'a'], ['WARC-Date', '2021-01-01T00:00:00Z']]])}
        typ = typ or r.choice(TYPES)
        ishttp = r.random() < 0.8
        uri = r.choice(['http://example.com/', 'https://h:8443/p?q=1', 'http://a/b%20c', 'http://\xe9.x/\u20ac']) if ishttp else r.choice(['dns:x', 'ftp://f/', 'urn:a:b', 'whois://w/x', 'httpx://y/', 'http', 'https-a:b', 'HTTP://up/'])
        if typ == 'warcinfo' or (typ not in ('response', 'request', 'revisit') and r.random() < 0.2):
            uri, ishttp = '', False
        x = {'kind': 'plain', 'type': typ, 'uri': uri, 'known': r.random() < 0.5}
        may = ishttp and typ in ('response', 'request', 'revisit')
        body = self.body()
        big = any(not isinstance(p, str) for p in body)
        x['stream'], x['pieces'] = self.src(big)
        x['pay'] = x['content'] = body
        if may and k.get('http') != 'none':
            h = self.httphead(typ)
            if r.random() < 0.5:
                x['http'] = h
                if r.random() < 0.1:
                    x['pay'] = x['content'] = None
            elif r.random() < 0.05:
                x['pay'] = [r.choice(['\r\n', '\n'])] + body
            elif typ == 'revisit' and r.random() < 0.4:
                x['pay'] = x['content'] = None
            else:
                x['pay'] = [self.embed(h, r.random() < 0.7)] + body
        elif may:
            x['pay'] = x['content'] = None
        elif r.random() < 0.1 and typ != 'warcinfo':
            x['http'] = self.httphead('response')
        given = []
        for n in r.sample(WNAMES, r.choice([0, 0, 1, 2, 3])):
            given.append([n, r.choice(WVALUES)])
        if r.random() < 0.3:
            given.append(['WARC-Date', r.choice(['2020-01-02T03:04:05Z', '2020-01-02T03:04:05.123456Z'])])
        if r.random() < 0.2:
            given.append(['WARC-Record-ID', '<urn:uuid:%08x-0000-4000-8000-000000000002>' % r.getrandbits(32)])
        if r.random() < 0.15:
            given.append([r.choice(['Content-Type', 'content-type']), r.choice(['text/plain', 'application/warc-fields'])])
        if r.random() < 0.15:
            given.append(['WARC-Payload-Digest', r.choice(['sha1:AAAA', 'sha256:abc', 'x'])])
        if r.random() < 0.15:
            given.append(['WARC-Block-Digest', r.choice(['sha1:BBBB', 'md5:abc', 'x'])])
        if r.random() < 0.1:
            given.append(['Content-Length', '77'])
        if r.random() < 0.1:
            given.append(['warc-type', 'other'])
        if r.random() < 0.1:
            given.append([r.choice(['WARC-Target-URI', 'warc-target-uri']), r.choice(['http://given/', 'http://given/\xe9', 'urn:given'])] if uri else ['X-Own-2', ''])
        r.shuffle(given)
        if r.random() < 0.25:
            # names mean the same in any case
            given = [[r.choice([n, n.lower(), n.upper(), n.title(), n.swapcase()]), v] for n, v in given]
        if r.random() < 0.15:
            # complete header collection
            given = [g for g in given if g[0].lower() not in ('warc-type', 'warc-date', 'warc-record-id', 'warc-target-uri')]
            given = [['WARC-Type', typ]] + ([['WARC-Target-URI', uri]] if uri else []) + given
            if r.random() < 0.8:
                given.append(['WARC-Record-ID', '<urn:uuid:%08x-0000-4000-8000-000000000003>' % r.getrandbits(32)])
            if r.random() < 0.8:
                given.append(['WARC-Date', '2019-01-02T03:04:05Z'])
            if r.random() < 0.3:
                given.append(['X-Own', 'second'])
            x['whole'] = True
        x['given'] = given
        if x['pay'] is None and r.random() < 0.4:
            x['nolen'] = r.choice([0, 5, 100])
        x['form'] = r.choice(['tuples', 'tuples', 'lists', 'bytes', 'line'])
        if k.get('pair'):
            # not whole
            x.pop('whole', None)
            x['given'] = [list(i) for i in dict((g[0], g[1]) for g in given).items() if i[0].lower() != 'warc-type']
        if not x.get('whole'):
            # the same headers as for a record before
            key = bool(uri), bool(k.get('pair')), typ == 'warcinfo'
            givens = self.__dict__.setdefault('givens', {})
            if key in givens and r.random() < 0.15:
                x['given'] = [list(h) for h in givens[key]]
            elif x['given']:
                givens[key] = x['given']
        if r.random() < 0.15:
            x['ctype'] = r.choice(['text/html', 'application/x'])
        return x

    def again(self, recs, i):
        """make recs[i] use the HTTP headers of an earlier record, changed"""
        r = self.r
        js = [j for j in range(i) if recs[j].get('http') and recs[j]['kind'] == 'plain' and recs[j]['type'] == 'response'
              and len(set(n.lower() for n, v in recs[j]['http']['hdrs'])) == len(recs[j]['http']['hdrs'])]
        if not js or not recs[i].get('http') or recs[i].get('type') != 'response':
            return
        j = js[-1]
        hs = [list(h) for h in recs[j]['http']['hdrs']]
        ch = [[r.choice(['X-Again', 'x-b', 'Link', 'content-type'] + [h[0] for h in hs]), r.choice(['new', 'x' * 300, 'text/html', 'caf\xe9', ''])] for _ in range(r.choice([0, 1, 1, 2]))]
        for n, v in ch:
            k = [k for k, h in enumerate(hs) if h[0].lower() == n.lower()]
            if k:
                hs[k[0]] = [hs[k[0]][0], v]
            else:
                hs.append([n, v])
        recs[i]['same'] = [j, ch]
        recs[i]['http'] = dict(recs[j]['http'], hdrs=hs)

    def filter(self):
        r = self.r
        if r.random() < 0.75:
            return None
        return {'drop': r.sample(['Set-Cookie', 'x-a', 'Nope', 'Content-Disposition'], r.choice([0, 1, 2])),
                'set': [[n, r.choice([n, 'X-New']), r.choice(['v', 'caf\xe9', ''])] for n in r.sample(['ETag', 'X-B', 'Content-Type'], r.choice([0, 1]))]}
