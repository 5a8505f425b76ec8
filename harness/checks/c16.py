from core import Check
from gen import Gen, size, raw
from drivers_util import gz
from checks.c03 import source


class C16(Check):
    pid = 'C16'
    driver = 'archive'
    trace = 'TraceArchive'
    technique = ('TLA+ reference reader of the whole archive; the real iterator is run on every prefix (crash point) '
                 'and TLC accepts only complete records plus at most one partial one')
    level_note = ('Every byte position of small random archives (compressed and not, WARC and ARC), and random ones of '
                  'larger archives, are cut positions; TLC judges each recorded iteration against the records of the '
                  'whole archive as ReadAll gives them. Appending after the last complete record is checked with the '
                  'real writer. Trusted: zlib, TLC. ')
    assumptions = ['a stopped writer leaves a prefix of what it would have written']

    def scenarios(self):
        r = self.rng
        scn = []
        for i in range(24 if self.quick else 150):
            big = i % 8 == 7
            ge = Gen(r, 0.4 if big else 0.0)
            kind = r.choice(['warc', 'warc', 'arc'])
            n = r.randrange(1, 4)
            recs = [ge.warc(digests=r.random() < 0.7) if kind == 'warc' else ge.arc(filedesc=(j == 0 and r.random() < 0.6)) for j in range(n)]
            zip_ = i % 2 == 0
            parts = ge.parts(recs, zip_, kind, tail=False)
            total = sum(len(gz(raw(p['text']), p.get('level', 6))) if p['gz'] else size(p['text']) for p in parts)
            cuts = list(range(total + 1))
            k = 8 if big else 110 if self.quick else 400
            if total > k:
                cuts = r.sample(cuts, k)
            for c in cuts:
                s = {'prop': 'C16', 'parts': parts, 'mode': 'cut', 'cut': c, 'chk': r.choice(['on', 'on', 'off', 'log']), 'algs': ['sha1', 'md5', 'sha256'],
                     'digs': [d for x in recs for d in x['digs']], 'again': 1, 'opt': {'a2w': kind == 'arc' and r.random() < 0.3}}
                s['bytes'] = 1
                pol = r.choice([[['drain', 'raw', 'read', -1], ['verdict']], [['drain', 'raw', 'read', 5 if not big else 8000], ['verdict']],
                                [['extent'], ['verdict']], [], [['drain', 'raw', 'line', -1], ['verdict'], ['extent']] if not big else []])
                s['pol'] = [pol]
                if r.random() < 0.3:
                    source(s, r, big)
                scn.append(s)
        # append after the last complete record
        for i in range(60 if self.quick else 500):
            ge = Gen(r)
            zip_ = r.random() < 0.5
            recs = [ge.warc() for j in range(r.randrange(1, 3))]
            if zip_:
                parts = [{'gz': True, 'text': x['text'] + ['\r\n\r\n']} for x in recs]
            else:
                parts = [{'gz': False, 'text': ''.join(''.join(x['text']) + '\r\n\r\n' for x in recs)}]
            scn.append({'prop': 'C16', 'parts': parts, 'count': len(recs) + 2, 'pol': [[['drain', 'raw', 'read', -1], ['extent']]], 'reopen': ['seek'],
                        'append': [['resource', 'http://new/', ge.lines(r.choice([0, 5, 80]))], ['response', 'http://new/r', 'HTTP/1.1 200 OK\r\nA: b\r\n\r\n' + ge.lines(9)]],
                        'zip': zip_})
        return scn


CHECK = C16
