from core import Check
from gen import Gen, rand_pol
from checks.c03 import source, from_model
from checks.c04 import from_iter


class C10(Check):
    pid = 'C10'
    driver = 'archive'
    trace = 'TraceArchive'
    technique = ('TLA+ model of gzip member layouts; TLC proves which layouts must be reported, every layout is read '
                 'by the real iterator and the recorded iteration judged by TLC')
    level_note = ('All distributions of up to 2-3 records, blank and empty members over gzip members are enumerated by '
                  'TLC with the required outcome, and random larger ones added; the real iterator must yield exactly '
                  'the specified records and then end, or fail with the error about gzip, as the specification says. '
                  'Trusted: zlib, TLC. ')
    assumptions = ['zlib splits a file into gzip members correctly']

    def scenarios(self):
        r = self.rng
        scn = []
        for kind in ('warc', 'arc'):
            for g in self.gen('MCArchive', env={'KIND': kind, 'DEPTH': '3' if not self.quick and kind == 'arc' else '2',
                                                'WIDE': {'warc': '4' if self.quick else '10', 'arc': '2' if self.quick else '3'}[kind]}):
                if not g['zip'] or r.random() < (0.6 if self.quick else 0.4):
                    continue
                s = {'prop': 'C10', 'parts': from_model(g), 'again': r.choice([0, 1]), 'pol': [rand_pol(r, dec=False) for _ in range(2)]}
                if r.random() < 0.5:
                    source(s, r)
                scn.append(s)
        for g in self.gen('MCIter', env={'DEPTH': '4', 'WIDE': '1'}):
            if g['zip'] and any(len(m) > 1 for m in g['lay']):
                s = from_iter(g, r)
                s['prop'] = 'C10'
                if r.random() < 0.4:
                    source(s, r)
                scn.append(s)
        for i in range(700 if self.quick else 6000):
            big = i % 15 == 0
            ge = Gen(r, 0.5 if big else 0.0)
            kind = r.choice(['warc', 'warc', 'arc', 'mixed'])
            recs = [ge.warc() if kind == 'warc' or (kind == 'mixed' and r.random() < 0.5) else ge.arc(filedesc=(j == 0 and r.random() < 0.5))
                    for j in range(r.randrange(1, 6))]
            s = {'prop': 'C10', 'parts': ge.parts(recs, True, 'arc' if kind == 'arc' else 'warc', empties=0.3, many=r.choice([0, 0.2, 0.5, 1])),
                 'opt': {'a2w': kind == 'mixed', 'norec': r.random() < 0.1},
                 'pol': [rand_pol(r, big, dec=False) for _ in range(3)], 'again': r.choice([0, 1])}
            source(s, r, big)
            scn.append(s)
        return scn


CHECK = C10
