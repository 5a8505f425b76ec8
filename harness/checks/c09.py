from core import Check, T, B


class C09(Check):
    pid = 'C09'
    driver = 'block'
    trace = 'TraceBlock'
    technique = ('TLA+ definition of parsing and serialising header blocks, laws checked by TLC over all small blocks; the '
                 'blocks and larger ones go through the real parser and serialiser and TLC judges each result')
    level_note = ('TLC checks the laws (exact consumption, parse of serialise, ASCII output) on every block of up to the bound '
                  'of significant lines; each block and random larger ones (UTF-8, Latin-1, odd white space, continuations, '
                  'small read blocks, limits) are parsed, serialised in all forms, filtered and parsed again by the real code '
                  'and must give exactly the specified result. Trusted: TLC.')
    assumptions = ['no lone surrogates in texts']

    def scenarios(self):
        r = self.rng
        scn = []
        for g in self.gen('MCBlock', env={'LINES': '2' if self.quick else '3'}):
            s = {'raw': g['raw'], 'verify': r.random() < 0.5, 'src': r.choice(['bytes', 'buffered', 'limited']), 'bs': r.choice([1, 2, 5, 16, 100])}
            x = r.random()
            if x < 0.3:
                s['raw'] = s['raw'] + B(b'\r\nrest: of\r\nthe stream')
            elif x < 0.4:
                s['raw'] = s['raw'][:-1]
            elif x < 0.5:
                k = bytes(s['raw']).index(b'\n') + 1
                s['first'], s['raw'] = s['raw'][:k], s['raw'][k:]
            if r.random() < 0.3:
                s['filter'] = self.filt(r)
            scn.append(s)
        if not self.quick:
            scn = [s for s in scn if r.random() < 0.6]
        # random blocks
        bits = ['A', 'b', ':', ' ', '\t', ';', '=', '"', "'", '%', 'name', 'x=', '="v"', '\u00e9', '\u4e2d', '\U0001f600', '\u00a0', '\x1f', '\x85', '/', '~', '\x00', '\x7f', '\r']
        for i in range(600 if self.quick else 8000):
            k = r.randrange(0, 7)
            lines = [r.choice(['HTTP/1.1 200 OK', 'http/1.0 404', 'GET / HTTP/1.1', 'WARC/1.1', 'WARC/1.0 x', 'HTTP/1.1', 'x', '\u00e9t\u00e9 1', 'HTTP/2 200', 'HTTP/1.1 200  O  K', 'HTTP/1.0 200\tok', 'HTTP/1.1  200 OK', 'HTTP/1.1 200 O: K', 'HTTP/1.1\t200', ' HTTP/1.1 200 OK', 'POST /a  b HTTP/1.1'])]
            for _ in range(k):
                n = r.choice(['A', 'Content-Type', 'x-y', '\u00dcber', ' ', 'set-cookie', 'A ', '', 'Log', 'X\t', 'a b'])
                v = ''.join(r.choice(bits) for _ in range(r.randrange(0, 9)))
                if r.random() < 0.2:
                    v = r.choice(['took: 3ms', 'a:b', ': ', ':', 'http://h:80/?q=a: b', 'x', '', 'b  ', '\tb', '  ', 'a=b; c: d'])
                if r.random() < 0.02:
                    v = 'v' * r.choice([1000, 4096, 5000, 8192, 9000, 16384, 17000, 40000])
                lines.append(r.choice([n + ':' + v, n + ': ' + v, n + ': ' + v, ' ' + v, '\t' + v, v, n + ':\t' + v, n + ' :' + v, n + ':  ' + v, n + ' : ' + v]))
            if r.random() < 0.03:
                lines += ['X-N%d: %d' % (j, j) for j in range(r.choice([50, 100, 101, 200, 300]))]
            enc = r.choice(['utf-8', 'utf-8', 'latin-1'])
            raw = b''
            for t in lines:
                raw += t.encode(enc, 'ignore') + r.choice([b'\r\n', b'\r\n', b'\r\n', b'\n', b' \r\n'])
            if r.random() < 0.8:
                raw += r.choice([b'\r\n', b'\n', b' \r\n']) + r.choice([b'', b'body', b'A: b\r\n\r\n', b'\n\n'])
            if r.random() < 0.1:
                j = r.randrange(len(raw))
                raw = raw[:j] + bytes([r.randrange(128, 256)]) + raw[j:]
            if r.random() < 0.1:
                raw = raw[:r.randrange(len(raw))]
            s = {'raw': B(raw), 'verify': r.random() < 0.5, 'src': r.choice(['bytes', 'buffered', 'limited']), 'bs': r.choice([1, 3, 7, 50, 16384])}
            if r.random() < 0.3:
                s['prefixes'] = r.choice([['WARC/1.1', 'WARC/1.0'], ['GET', 'POST'], ['HTTP/1.0', 'HTTP/1.1']])
            if r.random() < 0.4:
                s['filter'] = self.filt(r)
            scn.append(s)
        # given headers
        vb = ['a', 'B', ' ', '; ', '=', '"', "'", 'filename', '\u00e9', '\u4e2d\u6587', '\U0001f600', '%20', '/', ':', ',', '="\u00fc"', 'charset=utf-8', '~', '\u0416']
        for i in range(500 if self.quick else 8000):
            hs = []
            for _ in range(r.randrange(0, 6)):
                v = ''.join(r.choice(vb) for _ in range(r.randrange(0, 8)))
                hs.append([T(r.choice(['A', 'Content-Disposition', 'X', 'a', 'N\u00e4me'] if r.random() < 0.2 else ['A', 'Content-Disposition', 'X', 'a'])),
                           T(v.strip() if r.random() < 0.8 else v)])
            s = {'proto': T(r.choice(['HTTP/1.1', 'HTTP/1.0', 'GET', ''])), 'status': T(r.choice(['200 OK', '', '404 \u00e9', '/ HTTP/1.1'])), 'hdrs': hs}
            if r.random() < 0.5:
                s['filter'] = self.filt(r)
            scn.append(s)
        return scn

    def filt(self, r):
        f = {'drop': [], 'set': []}
        if r.random() < 0.7:
            f['drop'] = [T(r.choice(['A', 'x', 'Content-Disposition', 'e', 'D']))]
        if r.random() < 0.6 or not f['drop']:
            n = r.choice(['a', 'B', 'X', 'Content-Type'])
            f['set'] = [[T(n), T(r.choice([n, 'Y-' + n])), T(r.choice(['new', '', '\u00e9 x']))]]
        return f


CHECK = C09
