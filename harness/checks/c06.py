from core import Check, B
from checks.c05 import lines_data

HOWS = [('read', -1), ('read', 1), ('read', 3), ('readline', -1), ('readline', 2), ('read', 16384), ('read', 100)]


EXTS = ['', '', '', ';ext', ';name=value', '; a="b"', ';', ';a=1;b=2', ';a="x;y"', ';a=b:c', ' ; a = b', ';q="a\\"b"', ';;', ';\xe9=1', ';0\r', ';a=\t',
        ';sig=' + 'f' * 50, ';sig=' + 'f' * 58, ';sig=' + '0' * 64, ';x=' + 'ab;' * 100, ';l=' + 'z' * 4000, ';l=' + 'z' * 16380, ';l=' + 'z' * 17000]
# what size lines may look like
SIZES = ['-5', '+5', '0x5', '0X5', '5_', '1_0', '-0', '-1', ' 5', '5 ', '\t5\t', '5\x0b', '5g', '', ' ', '00000000005', '80000001', '80000000', '7fffffff', 'ffffffff',
         '100000000', 'FfFf', '5 5', '\xb2', '5\r', '\n5', '0', '00', '-', '5.0', '0b1', '5;-', ';5', '5,3', 'a' * 62, '0' * 61 + '5', '0' * 63 + '5', '0' * 70 + '5']
BIG = [16383, 16384, 16385, 65536, 65537, 600000, 1048575, 1048576, 1048577, 2097153, 4194303]


class C06(Check):
    pid = 'C06'
    driver = 'reader'
    trace = 'TraceReader'
    technique = ('TLA+ definition of chunked decoding with its fallback, laws checked exhaustively by TLC on short bodies; '
                 'the same bodies and large random ones decoded by the code and judged by the specification in TLC')
    level_note = ('Laws of the decoder specification are checked by TLC on every body up to the bound over an '
                  'alphabet of significant bytes and every cut of short encodings; the same bodies and large '
                  'random ones go through the real decoder and each recorded read is judged by that specification '
                  'in TLC. Trusted: zlib/brotli to make inputs; TLC. ')
    assumptions = ['brotli and zlib make correct compressed data']

    def scenarios(self):
        r = self.rng
        scn = []
        bodies = self.gen('MCChunked', env={'LEN': '4' if self.quick else '5'})
        for g in bodies:
            if self.quick and len(g['raw']) in (4, 11) and r.random() < 0.6:
                continue
            if not self.quick and len(g['raw']) in (5, 12) and r.random() < 0.7:
                continue
            for raising in (False, True):
                how = r.choice(HOWS)
                s = {'kind': 'body', 'prop': 'C06', 'raw': g['raw'], 'te': 'chunked', 'raising': raising, 'how': how,
                     'ops': [{'op': r.choice(['read', 'readline']), 'n': r.choice([-1, 1, 2, 3, 50])} for _ in range(r.choice([0, 0, 1, 2]))]}
                if r.random() < 0.3:
                    s['bs'] = r.choice([1, 2, 3, 7, 64])
                if r.random() < 0.25:
                    s['short'] = r.choice([[1], [2], [1, 2], [3, 1, 5]])
                scn.append(s)
        # longer bodies
        for i in range(700 if self.quick else 8000):
            n = r.choice([0, 1, 2, 15, 16, 17, 64, 100, 255, 256, 257, 1000, 3000])
            plain = lines_data(r, n)
            comp = r.choice(['', '', 'gzip', 'deflate', 'rawdeflate', 'br'])
            ce = {'rawdeflate': 'deflate'}.get(comp, comp)
            s = {'kind': 'body', 'prop': 'C06', 'plain': B(plain), 'comp': comp or 'plain', 'te': 'chunked',
                 'ce': r.choice([ce, ce.upper()]) if comp != 'plain' else '', 'level': r.choice([0, 6]),
                 'chunks': [r.choice([1, 1, 2, 3, 10, 16, 26, 160, 255, 256, 500]) for _ in range(r.randrange(0, 12))],
                 'fmt': r.choice(['%x', '%X', '%04x', '%08X', '0x%x' if False else '%x ', '  %x'][:5]),
                 'ext': r.choice(EXTS),
                 'trailer': r.choice(['', '', '', 'X-Trailer: 1\r\n', 'A: b\r\nC: d\r\n', 'X-Long: ' + 'ab' * r.choice([20, 28, 40, 200]) + '\r\n',
                                            'Expires: ' + 'x' * r.choice([50, 54, 55, 60]) + '\r\nA: b\r\n'])}
            if r.random() < 0.3:
                s['cut'] = r.random()
            if r.random() < 0.15:
                s['notchunked'] = True
            if r.random() < 0.12:
                s['te'] = ''
            s['raising'] = r.random() < 0.3
            if r.random() < 0.35:
                # through a record, decoding on demand
                s['via'] = 'record'
                if r.random() < 0.1 and s['te']:
                    s['te'] = r.choice(['Chunked', 'CHUNKED', 'gzip, chunked', 'chunked, gzip', 'identity', 'chunke', 'chunkedx', 'chunked;a=b'])
                s['raising'] = False
                s['gz'] = r.random() < 0.5
                s['bs'] = r.choice([1, 7, 50, 1000, 16384])
            elif r.random() < 0.4:
                s['bs'] = r.choice([1, 2, 3, 10, 64, 100])
            if 'via' not in s and r.random() < 0.4:
                s['short'] = [r.choice([1, 2, 3, 16, 100]) for _ in range(r.randrange(1, 4))]
            s['how'] = r.choice(HOWS if n <= 257 and len(s['ext']) < 100 else HOWS[4:] + [('readline', -1), ('read', -1)])
            if (n > 257 or len(s['ext']) >= 100) and s['how'] == ('readline', 2):
                s['how'] = ('read', -1)
            s['ops'] = [{'op': r.choice(['read', 'readline']), 'n': r.choice([-1, 0, 1, 2, 3, 10, 100, 1000])} for _ in range(r.randrange(0, 6))]
            if s.get('raising') and any(o['n'] == 0 for o in s['ops']):
                s['ops'] = [o for o in s['ops'] if o['n']]
            scn.append(s)
        # all kinds of size lines, first or after a chunk
        for t in SIZES + [t + e for t in SIZES for e in (';x', ';' + 'y' * 80) if not self.quick or r.random() < 0.3]:
            for pre in ('', '3\r\nabc\r\n'):
                body = pre + t + '\r\n' + r.choice(['hello\r\n0\r\n\r\n', 'hello world, hello', '\r\nabc', '\r\n', '', 'abcdefghijklmnop\r\n0\r\n\r\nmore'])
                for raising in (False, True):
                    s = {'kind': 'body', 'prop': 'C06', 'raw': list(body.encode('latin-1')), 'te': 'chunked', 'raising': raising, 'how': r.choice(HOWS), 'ops': []}
                    if not raising and r.random() < 0.4:
                        s.update(via='record', gz=r.random() < 0.5, bs=r.choice([1, 7, 16384]))
                    scn.append(s)
        # chunks of many sizes, large ones too
        for i in range(60 if self.quick else 600):
            pieces, nb = [], 0
            for _ in range(r.choice([1, 1, 2, 3, 6])):
                d = []
                for _ in range(r.choice([1, 1, 2, 3])):
                    if r.random() < 0.6:
                        nb += 1
                        d.append([nb, r.choice(BIG)])
                    else:
                        d.append('x' * r.choice([0, 1, 2, 50]) + r.choice(['', '\r\n', '0\r\n\r\n']))
                n = sum(p[1] if not isinstance(p, str) else len(p) for p in d)
                if n:
                    pieces += [r.choice(['%x', '%X', '%08x']) % n + r.choice(EXTS) + '\r\n'] + d + ['\r\n']
            end = r.choice(['0\r\n\r\n'] * 4 + ['00\r\nA: b\r\n\r\n', '0;x\r\n\r\n', '', '0\r\n', '0', 'zz\r\nrest', '5\r\nab'])
            if r.random() < 0.15:
                pieces, end = ['not chunked'] + [p for p in pieces if not isinstance(p, str)], ''
            s = {'kind': 'body', 'prop': 'C06', 'pieces': pieces + [end], 'te': 'chunked', 'raising': r.random() < 0.2, 'how': ('read', -1),
                 'ops': [] if r.random() < 0.5 else [{'op': 'gather', 'n': r.choice([1000, 4096, 16383, 16384, 16385, 100000])}]}
            if r.random() < 0.5:
                s.update(via='record', gz=r.random() < 0.5, bs=r.choice([1000, 16384, 16384]), raising=False)
            elif r.random() < 0.4:
                s['bs'] = r.choice([100, 1000, 16384])
            if 'via' not in s and r.random() < 0.4:
                s['short'] = [r.choice([1000, 16384, 50001]) for _ in range(r.randrange(1, 4))]
            if s['raising']:
                s['ops'] = []
            scn.append(s)
        # chunks around the block size, in a record
        for i in range(8 if self.quick else 60):
            n = r.choice([16384, 16385, 20000, 33000])
            comp = ['plain', 'gzip', 'deflate', 'br'][i % 4]
            scn.append({'kind': 'body', 'prop': 'C06', 'plain': B(lines_data(r, n)), 'comp': comp, 'ce': comp if comp != 'plain' else '',
                        'te': 'chunked', 'level': 0, 'chunks': [r.choice([16383, 16384, 16385, 1, 8192])], 'via': 'record',
                        'how': r.choice([('read', 16384), ('read', 5000)]), 'gz': bool(i % 2), 'ops': []})
        return scn


CHECK = C06
