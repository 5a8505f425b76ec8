"""Random archives: WARC and ARC records as texts (bytes as latin-1 strings,
large blocks as [id, n] pieces)."""
import base64
import hashlib
import zlib
from drivers_util import gz, blob


def S(b):
    return b.decode('latin-1')


def raw(pieces):
    if isinstance(pieces, str):
        return pieces.encode('latin-1')
    return b''.join(p.encode('latin-1') if isinstance(p, str) else blob(p[0], p[1]) for p in pieces)


def size(pieces):
    return sum(len(p) if isinstance(p, str) else p[1] for p in pieces)


BOUNDARY = 'WARC/1.0\r\nWARC-Type: response\r\nWARC-Target-URI: http://in/side\r\nContent-Length: 4\r\n\r\nHTTP\r\n\r\n'


class Gen(object):
    def __init__(self, r, big=0.0):
        self.r, self.big, self.nblob = r, big, 0
        self.odd = r.choice([0, 0, 0, 0, 0, 0.3])     # unusually long things

    def lines(self, n):
        r = self.r
        out = ''
        while len(out) < n:
            out += ''.join(r.choice('abcdefgh \r\t\x00\xff:') for _ in range(r.choice([0, 1, 3, 10, 40]))) + r.choice(['\n', '\r\n', '\n\n'])
        return out[:n]

    def payload(self):
        """pieces"""
        r = self.r
        if r.random() < self.big:
            self.nblob += 1
            n = r.choice([16300, 16383, 16384, 16385, 20000, 32768, 32769, 49152] * 3 +
                         [65535, 65536, 65537, 100000, 131073, 300000, 524287, 524288, 524289, 600000, 1048575, 1048576, 1048577, 1500000])
            return [r.choice(['', 'x', '\r\n']), [self.nblob, n], r.choice(['', '\n', 'tail'])]
        k = r.randrange(12)
        return [{0: '', 1: 'a', 2: '\r\n', 3: '\r\n\r\n', 4: BOUNDARY, 5: '\r\n\r\n' + BOUNDARY, 6: S(gz(b'inner data\n')),
                 7: '\n' * r.randrange(1, 6), 8: 'HTTP/1.1 200 OK\r\nA: b\r\n\r\nx', 9: 'http://x/ 1.1.1.1 20170101000000 text/html 5\nhello\n'}.get(
                     k) if k < 10 else self.lines(r.choice([5, 30, 100, 400]))]

    def coded(self):
        """an HTTP body with codings: header lines, body, table entry"""
        r = self.r
        d = self.lines(r.choice([0, 1, 20, 200])).encode('latin-1')
        ce = r.choice(['gzip', 'deflate', 'raw', 'br', '', 'Gzip', 'unknown'])
        te = r.choice(['chunked', '', 'chunked', 'Chunked'])
        hs, body, codes = '', d, []
        if ce and ce != 'unknown':
            if ce.lower() == 'gzip':
                body = gz(d)
            elif ce == 'deflate':
                body = zlib.compress(d)
            elif ce == 'raw':
                c = zlib.compressobj(6, zlib.DEFLATED, -15)
                body = c.compress(d) + c.flush()
            else:
                import brotli
                body = brotli.compress(d)
            codes = [[S(body), S(d)]]
        if ce:
            hs += 'Content-Encoding: %s\r\n' % {'raw': 'deflate'}.get(ce, ce)
        if te:
            hs += 'Transfer-Encoding: %s\r\n' % te
            out, pos = b'', 0
            while pos < len(body):
                n = r.choice([1, 2, 7, 50, 300])
                out += b'%x\r\n' % len(body[pos:pos + n]) + body[pos:pos + n] + b'\r\n'
                pos += n
            body = out + b'0\r\n\r\n'
        k = r.randrange(12)
        if k == 0:
            # more after the end
            body += r.choice([b'x', b'\r\n', b'tail', b'tail\n' * 50, gz(b'more'), b'\n' * 20000 if r.random() < 0.2 else b'\0'])
        elif k == 1 and body:
            # damaged
            j = r.randrange(len(body))
            body = body[:j] + bytes([body[j] ^ r.choice([1, 0x20, 0xff])]) + body[j + 1:]
        elif k == 2:
            body = body[:r.randrange(len(body) + 1)]
        return hs, [S(body)], codes

    def long(self):
        """length of an unusually long text"""
        return self.r.choice([100, 500, 1023, 1024, 2000, 4095, 4096, 4097, 5000, 8192, 9000, 16383, 16384, 16385, 17000, 33000])

    def http(self, kind='response'):
        r = self.r
        if kind == 'request':
            st = r.choice(['GET / HTTP/1.1', 'POST /a?b=c HTTP/1.0', 'HEAD /x HTTP/1.1', 'OPTIONS * HTTP/1.1', 'PATCH /y HTTP/1.1',
                           'PUT /z HTTP/1.1', 'DELETE /a/b HTTP/1.1', 'TRACE / HTTP/1.0', 'CONNECT h:443 HTTP/1.1', 'PROPFIND /d HTTP/1.1',
                           'GET /a b HTTP/1.1', 'get / http/1.1', 'GET  / HTTP/1.1', 'GET / HTTP/2', 'GET http://p/ HTTP/1.1'])
        else:
            st = r.choice(['HTTP/1.1 200 OK', 'HTTP/1.0 404 Not Found', 'HTTP/1.1 301', 'HTTP/1.1 200 \xe9t\xe9', 'HTTP/1.1 500 Internal  Server Error',
                           'HTTP/1.1 200 ', 'HTTP/2 200', 'HTTP/2.0 204 No Content', 'http/1.1 200 ok', 'HTTP/1.0 200 OK: fine', 'ICY 200 OK', 'HTTP/1.1  200 OK',
                           'HTTP/1.1\t200 OK'])
        hs = ''
        if r.random() < self.odd * 0.3:
            st += ' ' + 'x' * self.long()
        if r.random() < self.odd * 0.3:
            hs += 'X-Long: %s\r\n' % ('y' * self.long())
        if r.random() < self.odd * 0.3:
            hs += ''.join('X-N%d: %d\r\n' % (i, i) for i in range(r.choice([20, 100, 101, 150])))
        for _ in range(r.choice([0, 1, 2, 3, 3, 6])):
            hs += r.choice(['X-Log:took: 3ms\r\n', 'X-A:b\r\n', 'X-Tab:\tt\r\n', 'X-Sp :v\r\n', 'X-A:  two  \r\n', 'x-a: lower\r\n', 'Set-Cookie: f="g;h"; i\r\n',
                            'X-Fold:\r\n only\r\n', 'X-Fold: a\r\n\tb\r\n  c\r\n', 'no colon here\r\n', 'X-Url: http://h:80/?a=b: c\r\n', 'Date: Thu, 26 Dec 2013 09:50:10 GMT\r\n',
                            'X-Lf: b\n', ': no name\r\n', 'X-L1: caf\xe9\r\n', 'X-Ctl: a\x01b\x0bc\r\n'] if r.random() < 0.3 else ['X-A: b\r\n', 'Content-Type: text/html; charset=utf-8\r\n', 'Set-Cookie: a=b; c\r\n', 'Set-Cookie: d=e\r\n',
                            'Content-Length: 99\r\n', 'X-Fold: one\r\n two\r\n', 'Empty:\r\n', 'Colon: a:b: c\r\n', 'U: \xc3\xa9\r\n'])
        return st, hs

    def digest(self, data, good=True, form=None, alg=None):
        r = self.r
        alg = alg or r.choice(['sha1', 'sha1', 'sha256', 'md5'])
        d = hashlib.new(alg, data).digest()
        if not good:
            d = bytes([d[0] ^ 1]) + d[1:]
        f = form or r.choice(['b32', 'b32', 'b16', 'B16', 'b64', 'u64', 'b32n', 'b64n'])
        v = {'b32': base64.b32encode(d), 'b16': base64.b16encode(d).lower(), 'B16': base64.b16encode(d),
             'b64': base64.b64encode(d), 'u64': base64.urlsafe_b64encode(d), 'b32n': base64.b32encode(d).rstrip(b'='),
             'b64n': base64.b64encode(d).rstrip(b'=')}[f]
        return alg + ':' + v.decode()

    def warc(self, **k):
        """one WARC record: dict with text pieces, block, content, kind ..."""
        r = self.r
        typ = k.get('type') or r.choice(['response'] * 5 + ['request', 'resource', 'metadata', 'warcinfo', 'revisit', 'conversion', 'continuation', 'x-own'])
        uri = k.get('uri', r.choice(['http://example.com/', 'https://h:8443/p?q=1', 'http://a/b%20c', 'dns:example.com',
                                     'ftp://f/', '<http://angle/>', 'http://sp ace/', 'urn:x', 'HTTP://UP/', 'http://caf\xc3\xa9/', 'http://l1\xe9/',
                                     'http://a/?x=WARC/1.0', '<urn:y>', 'http:', 'https:///x', 'http://[::1]:80/', '<http://sp in angle/>', '<<http://two/>>', '<http://open/', 'http://close/>', '<http://in<s>>',
                                     'httpx://h/', 'https+x:y', 'http', 'http-a:b', 'x-http:y', 'Https://up/'])
                    if not self.odd or r.random() < 0.8 else 'http://long/' + 'u' * self.long())
        codes = []
        norm = uri[1:-1] if uri and uri.startswith('<') and uri.endswith('>') else uri
        ishttp = typ in ('response', 'request', 'revisit') and norm is not None and norm.startswith(('http:', 'https:'))
        if 'block' in k:
            head, body = '', k['block']
        elif ishttp:
            st, hs = self.http('request' if typ == 'request' else 'response')
            body = self.payload()
            if typ == 'response' and r.random() < k.get('coded', 0.3):
                h2, body, codes = self.coded()
                hs += h2
            if typ == 'revisit' and r.random() < 0.7:
                body = ['']
            head = st + '\r\n' + hs + '\r\n'
            if typ == 'revisit' and r.random() < 0.3:
                head, body = '', ['']
        else:
            head, body = '', self.payload()
        block = [head] + body
        nl = k.get('nl') or r.choice(['\r\n'] * 6 + ['\n'])
        hs = [('WARC-Type', typ)]
        if k.get('id', True):
            hs.append(('WARC-Record-ID', '<urn:uuid:%08x-0000-4000-8000-%012x>' % (r.getrandbits(32), r.getrandbits(48))))
        if uri is not None:
            hs.append(('WARC-Target-URI', uri))
        hs.append(('WARC-Date', r.choice(['2020-01-02T03:04:05Z', '2019-12-31T23:59:59.123456Z'])))
        if r.random() < 0.6:
            hs.append(('Content-Type', r.choice(['application/http; msgtype=response', 'text/plain', 'application/warc-fields', 'text/plain', 'text/x; a="b, c"; d=e', 'a/b,c/d', 'text/html;charset=UTF-8', 'Application/HTTP', 'text/plain;'])))
        if r.random() < 0.3:
            hs.append(('WARC-IP-Address', '93.184.216.34'))
        if r.random() < 0.2:
            hs.append(('X-Unicode', '\xc3\xa9\xe2\x82\xac'))
        if r.random() < 0.15:
            hs.append(('X-Folded', 'one\r\n\ttwo'))
        if r.random() < self.odd:
            hs.append(('X-Long', 'v' * self.long()))
        if r.random() < self.odd * 0.3:
            hs += [('X-N%d' % i, str(i)) for i in range(r.choice([20, 100, 101, 150]))]
        if r.random() < 0.1:
            hs.append(r.choice([('X-Empty', ''), ('X-Twice', 'a'), ('X-Colon', 'a:b: c'), ('X-Log', 'took: 3ms'), ('WARC-Concurrent-To', '<urn:uuid:x>'),
                                ('x-lower', 'b'), ('X-L1', 'caf\xe9'), ('X-Space', 'a  b'), ('X-Type', 'WARC/1.0'), ('WARC-Filename', 'f.warc.gz')]))
            if hs[-1][0] == 'X-Twice':
                hs.append(r.choice([('X-Twice', 'b'), ('x-twice', 'c')]))
        digs = [block, body] if ishttp and head else [block]
        hs += k.get('headers', [])
        good = k.get('good', True)
        if k.get('digests', r.random() < 0.3):
            if r.random() < 0.8:
                hs.append(('WARC-Block-Digest', self.digest(raw(block), good)))
            if r.random() < 0.8 and (ishttp or not head):
                hs.append(('WARC-Payload-Digest', self.digest(raw(digs[-1]), True)))
        ln = k.get('length', str(size(block)))
        if ln is not None:
            hs.append((r.choice(['Content-Length'] * 4 + ['content-length', 'CONTENT-LENGTH']), ln))
        first, rest = hs[0], hs[1:]
        if r.random() < 0.5:
            r.shuffle(rest)
        hs = [first] + rest
        ver = k.get('version') or r.choice(['WARC/1.0', 'WARC/1.0', 'WARC/1.1', 'WARC/0.17', 'WARC/0.18'])
        hd = ver + nl + ''.join('%s:%s%s%s' % (n, r.choice([' ', ' ', ' ', '']) if n[0] == 'X' else ' ', v, nl) for n, v in hs) + nl
        return {'text': [hd] + block, 'block': block, 'digs': digs, 'codes': codes, 'type': typ, 'headlen': len(hd), 'ishttp': ishttp}

    def arc(self, **k):
        r = self.r
        filedesc = k.get('filedesc', False)
        codes, digs = [], []
        if filedesc:
            uri = 'filedesc://' + r.choice(['a.arc', 'IAH-2008.arc.gz', 'x y.arc', 'caf\xc3\xa9.arc', 'dir/a.arc', '/abs/d-1/a.arc.gz', 'filedesc://x.arc', 'a.arc?b#c', '', '1.2.3.4'])
            v = r.choice(['1 0 InternetArchive\n', '1 1 \xc3\xa9tat\n', '2 0 x\r\n'])
            sp = r.choice(['URL IP-address Archive-date Content-type Archive-length\n', 'URL IP \xc3\xa9\n', 'URL IP-address Archive-date Content-type Archive-length\r\n', 'URL IP  \n'])
            block = [v + sp] + r.choice([[''], ['\n'], ['<?xml version="1.0"?>\n<arcmetadata/>\n'], self.payload()])
        else:
            uri = r.choice(['http://example.com/', 'https://h/p?q=1', 'http://a/b c', 'dns:x', 'http://\xc3\xa9/', 'ftp://f/', 'http://a/ b  c', 'http://example.com', 'HTTP://UP/',
                            'http://a/?u=filedesc://x', 'mailto:a@b', 'http://a/b%20c', '<http://angle/>', 'http://l1\xe9/', 'urn:x', 'http://a/\ttab', 'httpx://h/', 'http', 'https-a:b', 'xhttp://h/'])
            if r.random() < self.odd:
                uri = r.choice(['http://long/', 'ftp://l/ ', 'http://s p/']) + 'u' * self.long()
            if uri.lstrip('<').startswith('http'):
                st, hs = self.http()
                body = self.payload()
                if r.random() < 0.3:
                    h2, body, codes = self.coded()
                    hs += h2
                block = [st + '\r\n' + hs + '\r\n'] + body
                if r.random() < 0.1:
                    block = ['']
            else:
                block = self.payload()
        ip = r.choice(['1.2.3.4', '0.0.0.0', '::1', '2001:db8::1', '-', 'host'])
        date = r.choice(['20170306040206', '20081230000000', '20071231235959', '20160229120000', '2017030604', '201703', '20179999999999', '19961231235959', '1', '0',
                         '20000229235960', '19000101000000', '20170306040206123', '2017'])
        ct = r.choice(['text/html', 'text/plain', 'no-type', 'application/x-a', 'text/html;charset=utf-8', '-', 'unk', 'alexa/dat', 'HTTP/1.0', 'caf\xc3\xa9', '5'])
        ln = k.get('length', str(size(block)))
        hd = '%s %s %s %s %s' % (uri, ip, date, ct, ln) + r.choice(['\n', '\n', '\r\n'])
        return {'text': [hd] + block, 'block': block, 'codes': codes, 'digs': digs, 'headlen': len(hd), 'type': 'arc', 'ishttp': uri.lstrip('<').startswith('http')}

    def sep(self, kind='warc'):
        r = self.r
        if kind == 'arc':
            return r.choice(['\n', '\n', '\n\n', '\r\n', '\n\n\n'])
        return r.choice(['\r\n\r\n'] * 6 + ['\n\n', '\r\n', '\r\n\r\n\r\n', '\r\n \r\n'])

    def parts(self, recs, zip_, kind='warc', tail=True, empties=0.1, many=0.0):
        """the members of a file holding the records; one record per member unless many"""
        r = self.r
        if not zip_:
            t = [r.choice(['', '', '', '\r\n', '\n\n'])]
            for i, x in enumerate(recs):
                t += x['text'] + [self.sep(kind) if i < len(recs) - 1 or r.random() < 0.8 else '']
            return [{'gz': False, 'text': join(t)}]
        out = []
        for i, x in enumerate(recs):
            if r.random() < empties:
                out.append({'gz': True, 'text': r.choice(['', '', '\r\n', '\n\n\n'])})
            t = [r.choice(['', '', '', '', '\r\n'])] + x['text'] + [r.choice([self.sep(kind)] * 4 + [''])]
            if out and many and r.random() < many:
                # into the same member as the previous record
                out[-1]['text'] = join((out[-1]['text'] if isinstance(out[-1]['text'], list) else [out[-1]['text']]) + ['\r\n'] + t)
            else:
                out.append({'gz': True, 'text': join(t), 'level': r.choice([0, 1, 6, 9])})
        if tail and r.random() < empties:
            out.append({'gz': True, 'text': r.choice(['', '\r\n'])})
        if tail and r.random() < empties:
            out.append({'gz': False, 'text': r.choice(['\r\n', '\n', '   \n', '\r\n\r\n'])})
        return out


def join(pieces):
    out = []
    for p in pieces:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out[0] if len(out) == 1 else out


def has_blob(parts):
    return any(not isinstance(p['text'], str) and any(not isinstance(x, str) for x in p['text']) for p in parts)


def rand_pol(r, blobs=False, dec=True, chk=False):
    """how one record is consumed"""
    ops = []
    via = 'raw' if not dec or r.random() < 0.6 else 'dec'
    k = r.randrange(8)
    ns = [0, 1, 2, 3, 5, 17, 100, 1000, -1]
    if r.random() < 0.3:
        ops.append(['extent'])
    if k == 0:
        pass
    elif k == 1:
        ops.append(['read', via, -1])
    elif k == 2 and not blobs:
        ops += [['read' if r.random() < 0.5 else 'line', via, r.choice(ns)] for _ in range(r.randrange(1, 5))]
    elif k == 3 and not blobs:
        ops.append(['drain', via, 'line', r.choice([-1, -1, 7, 100])])
    elif k == 4 and not blobs:
        ops.append(['drain', via, 'read', r.choice([1, 3, 50, 1000])])
    elif k == 5 and not blobs:
        ops += [['line', via, -1], ['read', via, 2], ['extent'], ['line', via, -1]]
    elif k == 6 and not blobs:
        ops += [['read', via, r.choice([1, 4])], ['drain', via, 'read', -1]]
    elif blobs and k in (2, 3, 4):
        ops.append(['gather', via, r.choice([1000, 4096, 5000, 16383, 16384, 16385, 65536, 100000])])
    else:
        ops.append(['drain', via, 'read', -1])
    if r.random() < 0.3:
        ops.append(['stale', r.choice([1, 1, 2]), r.choice(['read', 'line']), via, r.choice([1, 100])])
    if r.random() < 0.3:
        ops.append(['extent'])
    if r.random() < 0.1:
        ops.append(['extent'])
    return ops


def canonical(head):
    """is this HTTP head in the form the writer gives it?"""
    if not head.isascii() or not head.endswith('\r\n\r\n'):
        return False
    lines = head[:-4].split('\r\n')
    if any('\n' in x or '\r' in x or x != x.strip() for x in lines):
        return False
    if ' ' not in lines[0] or lines[0].split(' ', 1)[1].strip() != lines[0].split(' ', 1)[1]:
        return False
    for x in lines[1:]:
        n, sep, v = x.partition(': ')
        if not sep or v.strip() != v or n.rstrip(' \t') != n or ':' in n or not v:
            return False
    return True
