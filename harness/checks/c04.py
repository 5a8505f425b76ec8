from core import Check
from gen import Gen, rand_pol, S
from checks.c03 import source, from_model


def from_iter(g, r):
    """a behaviour of MCIter on a real archive of the same layout"""
    texts, n = [], 0
    for mem in g['lay']:
        t = ''
        for x in mem:
            n += 1
            kind = r.randrange(3)
            block = ''.join(r.choice('ab\r\n') for _ in range(x['b']))
            if kind == 0 and x['b']:
                head = 'WARC/1.0\r\nWARC-Type: response\r\nWARC-Target-URI: http://a/%d\r\n' % n
                block = 'HTTP/1.1 200 OK\r\nA: %d\r\n\r\n' % n + block
            else:
                head = 'WARC/1.1\r\nWARC-Type: resource\r\nX-N: %d\r\n' % n
            t += head + 'Content-Length: %d\r\n\r\n' % len(block) + block + '\r\n' * x['s']
        texts.append(t)
    parts = [{'gz': True, 'text': t} for t in texts] if g['zip'] else [{'gz': False, 'text': ''.join(texts)}]
    pol, cur, again = [], None, -1
    for o in g['ops']:
        if o['op'] == 'next':
            cur = []
            pol.append(cur)
        elif cur is not None:
            cur.append(['extent'] if o['op'] == 'extent' else ['read', 'raw', o['n']])
    return {'parts': parts, 'pol': pol, 'once': 1, 'again': 2}


class C04(Check):
    pid = 'C04'
    driver = 'archive'
    trace = 'TraceArchive'
    technique = ('TLA+ model of the iterator (limited stream, line read ahead, lazy extents) refined by TLC to '
                 'record-by-record reading; all its call sequences replayed, every call judged by TLC')
    level_note = ('TLC explores every sequence of next/read/extent calls of the bound over all layouts of the model '
                  'and each is replayed on a real archive; random archives are read with random mixes of raw and '
                  'decoded reads, line reads, stale reads, extents, block sizes, short and untellable sources. TLC '
                  'accepts each returned byte string only if it is the specified part of that record. '
                  'Trusted: zlib, brotli, TLC. ')
    assumptions = ['zlib splits a file into gzip members correctly', 'codings are applied as the HTTP headers say']

    def scenarios(self):
        r = self.rng
        scn = []
        for g in self.gen('MCIter', env={'DEPTH': '5' if self.quick else '6', 'WIDE': '0' if self.quick else '1'}):
            if self.quick and r.random() < 0.3 or not self.quick and r.random() < 0.6:
                continue
            s = from_iter(g, r)
            s['prop'] = 'C04'
            if r.random() < 0.4:
                source(s, r)
            scn.append(s)
        for i in range(900 if self.quick else 8000):
            big = i % 15 == 0
            ge = Gen(r, 0.5 if big else 0.0)
            kind = r.choice(['warc', 'warc', 'warc', 'arc', 'mixed'])
            recs = [ge.warc(coded=0.6) if kind == 'warc' or (kind == 'mixed' and r.random() < 0.5) else
                    ge.arc(filedesc=(j == 0 and r.random() < 0.5)) for j in range(r.randrange(1, 5))]
            s = {'prop': 'C04', 'parts': ge.parts(recs, r.random() < 0.6, 'arc' if kind != 'warc' else 'warc'), 'dec': True,
                 'opt': {'a2w': kind == 'mixed', 'norec': r.random() < 0.1, 'ensure': r.random() < 0.1},
                 'codes': [c for x in recs for c in x['codes']],
                 'pol': [rand_pol(r, big) for _ in range(len(recs))], 'again': r.choice([0, 0, 1, 2])}
            if r.random() < 0.3:
                s['chk'] = 'on'
                s['algs'] = ['sha1', 'md5', 'sha256']
                s['digs'] = [d for x in recs for d in x['digs']]
            source(s, r, big)
            scn.append(s)
        return scn


CHECK = C04
