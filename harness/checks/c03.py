from core import Check
from gen import Gen, has_blob, S


def from_model(g):
    """parts of a behaviour of MCArchive"""
    return [{'gz': g['zip'], 'text': S(bytes(p))} for p in g['parts']]


def source(s, r, blobs=False):
    if r.random() < 0.25:
        s['untell'] = 1
    if r.random() < 0.4:
        s['pieces'] = [r.choice([4000, 9000] if blobs else [1, 2, 3, 7, 20, 100]) for _ in range(r.randrange(1, 4))]
    if r.random() < 0.6:
        s['bs'] = r.choice([5000, 16384] if blobs else [1, 2, 3, 10, 18, 20, 64, 300, 1000])
    return s


class C03(Check):
    pid = 'C03'
    driver = 'archive'
    trace = 'TraceArchive'
    technique = ('TLA+ model of archives and their reader; TLC builds all small archives and proves extents exact; '
                 'each is read by the real iterator, every reported extent and reopening judged by TLC')
    level_note = ('TLC enumerates archives (record shapes x separators x gzip members) up to the bound and checks '
                  'that the reference reader recovers the records and that extents tile; the real iterator is run '
                  'over each, and over random larger archives, and TLC accepts offset, length, and the record read '
                  'again at that extent only if they are those of the reference reader. Trusted: zlib, TLC. ')
    assumptions = ['zlib splits a file into gzip members correctly', 'one record per gzip member']

    def scenarios(self):
        r = self.rng
        scn = []
        for kind in ('warc', 'arc'):
            for g in self.gen('MCArchive', env={'KIND': kind, 'DEPTH': '2' if self.quick or kind == 'warc' else '3',
                                                'WIDE': {'warc': '3' if self.quick else '10', 'arc': '2' if self.quick else '3'}[kind]}):
                if g['multi'] or (not self.quick and r.random() < 0.5):
                    continue
                s = {'prop': 'C03', 'parts': from_model(g), 'reopen': ['seek', 'cut'],
                     'pol': [r.choice([[['extent']], [['read', 'raw', 1], ['extent'], ['extent']], [['drain', 'raw', 'read', -1], ['extent']]])]}
                if r.random() < 0.3:
                    source(s, r)
                scn.append(s)
        for i in range(700 if self.quick else 6000):
            big = i % 12 == 0
            ge = Gen(r, 0.5 if big else 0.0)
            kind = r.choice(['warc', 'warc', 'warc', 'arc', 'mixed'])
            n = r.randrange(1, 5)
            recs = [ge.warc() if kind == 'warc' or (kind == 'mixed' and r.random() < 0.5) else ge.arc(filedesc=(j == 0 and r.random() < 0.7))
                    for j in range(n)]
            zip_ = r.random() < 0.6
            s = {'prop': 'C03', 'parts': ge.parts(recs, zip_, 'arc' if kind != 'warc' else 'warc'), 'reopen': ['seek', 'cut'],
                 'opt': {'a2w': kind == 'mixed' or (kind == 'arc' and r.random() < 0.4), 'norec': r.random() < 0.2, 'ensure': r.random() < 0.1},
                 'pol': [[['extent']] if r.random() < 0.3 else r.choice([[], [['read', 'raw', r.choice([1, 5])]], [['line', 'raw', -1]],
                          [['drain', 'raw', 'read', -1]], [['extent']], [['read', 'dec', 1]]]) * (not big) + [['extent']] * r.choice([1, 1, 2])
                         for _ in range(3)]}
            if r.random() < 0.2:
                s['before'] = r.choice(['x', 'prefix\r\n', '\x1f\x8b'])
            source(s, r, big)
            s['dec'] = any('dec' in op for p in s['pol'] for op in p)
            s['codes'] = [c for x in recs for c in x['codes']]
            if s['dec']:
                s['pol'] = [[op for op in p] for p in s['pol']]
            scn.append(s)
        return scn


CHECK = C03
