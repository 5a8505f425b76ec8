from core import Check
from gen import Gen, rand_pol, S, join
from drivers_util import gz
from checks.c03 import source, from_model

NEITHER = ['<html>\n', 'HTTP/1.1 200 OK\r\n\r\n', 'warc\n', '\x00\x01\x02', 'WARC', 'WARC/1', 'WARC/2.0\r\n\r\n', 'a b c d\n', 'a b c d e f g\n', 'PK\x03\x04',
           'WARC/1.0x\r\nA: b\r\n\r\n', 'xWARC/1.0\r\n\r\n', ' WARC/1.0\r\n\r\n', 'a b c d e\n', 'filedesc://x\nabc\ndef\n', '\x1f\x8b', '\x1f\x8b\x08\x00',
           'warc/1.0\r\nContent-Length: 0\r\n\r\n', '\xff\xfe\n', 'a\n\nWARC/1.0\r\n\r\n', '2 0 x\n', 'x', '\r\n \r\nx\r\n']


class C20(Check):
    pid = 'C20'
    driver = 'archive'
    trace = 'TraceArchive'
    case_timeout = 10
    technique = ('TLA+ reference reader with its error outcomes; TLC-built archives with defective records, wrong '
                 'formats and mutated archives given to the real iterators, each recorded iteration judged by TLC')
    level_note = ('TLC enumerates archives mixing well-formed and defective records; the real iterators of all kinds '
                  'are run on these, on non-archive data, on mixtures of formats and on mutated archives with a time '
                  'limit, and TLC accepts only the records and the kind of end that the specification gives. '
                  'Arbitrary compressed garbage is checked for termination only. Trusted: zlib, TLC. ')
    assumptions = ['zlib terminates on any input']

    def scenarios(self):
        r = self.rng
        scn = []
        for g in self.gen('MCArchive', env={'KIND': 'bad', 'DEPTH': '2', 'WIDE': '5' if self.quick else '9'}):
            if g['multi'] or r.random() < (0.5 if self.quick else 0.3):
                continue
            s = {'prop': 'C20', 'parts': from_model(g), 'pol': [r.choice([[], [['drain', 'raw', 'read', -1]], [['extent']]])]}
            if r.random() < 0.3:
                source(s, r)
            scn.append(s)
        kinds = [('', False), ('warc', False), ('arc', False), ('', True), ('arc', True)]
        # formats: data that is neither, or of the other kind, compressed or not
        for t in NEITHER + ['', '\r\n', '\n\n\n']:
            for fmt, a2w in kinds:
                for z in (False, True):
                    if t == '' and z is False and fmt == '':
                        pass
                    scn.append({'prop': 'C20', 'parts': [{'gz': z, 'text': t}], 'opt': {'fmt': fmt, 'a2w': a2w}, 'pol': [[]], 'again': 1})
        for i in range(500 if self.quick else 4000):
            ge = Gen(r)
            recs = []
            kind = r.choice(['warc', 'arc', 'mixed'])
            for j in range(r.randrange(0, 4)):
                if kind == 'warc' or (kind == 'mixed' and r.random() < 0.5):
                    recs.append(self.odd(ge, r))
                else:
                    recs.append(ge.arc(filedesc=(j == 0 and r.random() < 0.5)))
            fmt, a2w = r.choice(kinds)
            parts = ge.parts(recs, r.random() < 0.6, 'arc' if kind != 'warc' else 'warc')
            if r.random() < 0.15:
                # followed by something else
                if parts and not parts[0]['gz']:
                    t = parts[0]['text']
                    parts[0]['text'] = (t if isinstance(t, str) else ''.join(t)) + r.choice(NEITHER)
                else:
                    parts.append({'gz': True, 'text': r.choice(NEITHER)})
            s = {'prop': 'C20', 'parts': parts, 'opt': {'fmt': fmt, 'a2w': a2w, 'verify': r.random() < 0.2, 'norec': r.random() < 0.1, 'ensure': r.random() < 0.1},
                 'pol': [rand_pol(r, dec=False) for _ in range(3)], 'again': 1}
            source(s, r)
            scn.append(s)
        # several records in one member, the text of a member cut off anywhere
        for i in range(300 if self.quick else 3000):
            ge = Gen(r)
            kind = r.choice(['warc', 'warc', 'arc'])
            recs = [self.odd(ge, r) if kind == 'warc' else ge.arc(filedesc=(j == 0 and r.random() < 0.5)) for j in range(r.randrange(1, 4))]
            parts = ge.parts(recs, True, kind, many=r.choice([0.3, 0.7, 1.0]))
            p = r.choice(parts)
            t = p['text'] if isinstance(p['text'], str) else ''.join(p['text'])
            p['text'] = t[:r.randrange(len(t) + 1)] if r.random() < 0.8 else t + r.choice(NEITHER)
            s = {'prop': 'C20', 'parts': parts, 'opt': {'fmt': r.choice(['', '', '', kind]), 'a2w': r.random() < 0.2, 'norec': r.random() < 0.1},
                 'pol': [rand_pol(r, dec=False) for _ in range(3)], 'again': 1}
            source(s, r)
            scn.append(s)
        # mutations
        for i in range(1200 if self.quick else 12000):
            ge = Gen(r)
            kind = r.choice(['warc', 'arc'])
            recs = [ge.warc(nl='\r\n', digests=False) if kind == 'warc' else ge.arc(filedesc=(j == 0 and r.random() < 0.5)) for j in range(r.randrange(1, 3))]
            zip_ = r.random() < 0.5
            parts = ge.parts(recs, zip_, kind)
            p = r.choice(parts)
            t = p['text'] if isinstance(p['text'], str) else ''.join(p['text'])
            s = {'prop': 'C20', 'parts': parts, 'opt': {'fmt': r.choice(['', '', '', kind]), 'a2w': r.random() < 0.2, 'verify': r.random() < 0.2},
                 'pol': [rand_pol(r, dec=False) for _ in range(2)], 'again': 1}
            source(s, r)
            if zip_ and r.random() < 0.4:
                # the compressed bytes are damaged: only that it ends
                d = bytearray(b''.join(gz(x['text'].encode('latin-1') if isinstance(x['text'], str) else ''.join(x['text']).encode('latin-1')) for x in parts))
                for _ in range(r.choice([1, 1, 3])):
                    self.mutate(d, r)
                s['parts'] = [{'gz': False, 'text': S(bytes(d))}]
                s['mode'] = 'any'
            else:
                d = bytearray(t.encode('latin-1'))
                for _ in range(r.choice([1, 1, 2])):
                    self.mutate(d, r)
                p['text'] = S(bytes(d))
                s['mode'] = 'exact'
            scn.append(s)
        return scn

    def mutate(self, d, r):
        k = r.randrange(5)
        i = r.randrange(len(d) + 1)
        if k == 0 and d:
            d[min(i, len(d) - 1)] = r.choice([0, 10, 13, 32, 48, 57, 58, 65, 255, r.randrange(256)])
        elif k == 1:
            del d[i:i + r.choice([1, 2, 10])]
        elif k == 2:
            d[i:i] = bytes(r.choice([b'\n', b'\r\n', b'\r\n\r\n', b':', b' ', b'WARC/1.0\r\n', b'\x00', b'1', b'x']))
        elif k == 3:
            j = min(len(d), i + r.randrange(40))
            d[i:i] = d[i:j]
        else:
            del d[i:]

    def odd(self, ge, r):
        k = r.randrange(7)
        if k == 0:
            x = ge.warc(uri=None)
        elif k == 1:
            x = ge.warc(block=[''], length=r.choice(['abc', '-5', '', '1.5', '0x10', '--1']))
        elif k == 2:
            x = ge.warc(type=r.choice(['response', 'request', 'revisit']), uri='http://x/',
                        block=[r.choice(['\x00\x01\x02', 'no http\n', '\r\n', '\r\n\r\nHTTP/1.1', ' x: y\r\n', ': :\r\n\r\n', 'HTTP/1.1\r\n', 'GET\r\n\r\n', 'A: b\r\n\r\n', 'HTTP/9 1 2\r\n\r\nx'])])
        elif k == 3:
            x = ge.warc(length=None, block=[''])
        else:
            x = ge.warc()
        return x


CHECK = C20
