from core import Check
from gen import Gen, rand_pol
from checks.c03 import source, from_model


class C12(Check):
    pid = 'C12'
    driver = 'archive'
    trace = 'TraceArchive'
    technique = ('TLA+ specification of ARC records and of their conversion; TLC-built and random ARC archives read in '
                 'both modes, every record judged by TLC')
    level_note = ('The ARC grammar, its length accounting (file header lines included) and the conversion to WARC '
                  'headers (date, type, URL) are defined in TLA+; TLC enumerates small archives and judges every '
                  'recorded record (fields, HTTP headers, content, extents) of these and of random ones with odd '
                  'field values, separators and non-ASCII texts. Trusted: zlib, TLC. ')
    assumptions = ['uncompressed ARC records are separated by at least one line end', 'dates of digits only']

    def scenarios(self):
        r = self.rng
        scn = []
        for g in self.gen('MCArchive', env={'KIND': 'arc', 'DEPTH': '2' if self.quick else '3', 'WIDE': '4' if self.quick else '3'}):
            if r.random() < (0.85 if self.quick else 0.9):
                continue
            s = {'prop': 'C12', 'parts': from_model(g), 'opt': {'a2w': r.random() < 0.5, 'fmt': r.choice(['', '', 'arc'])},
                 'pol': [[['drain', 'raw', 'read', -1], ['extent']]]}
            scn.append(s)
        for i in range(1500 if self.quick else 12000):
            big = i % 20 == 0
            ge = Gen(r, 0.5 if big else 0.0)
            recs = [ge.arc(filedesc=(j == 0 and r.random() < 0.7)) for j in range(r.randrange(1, 5))]
            a2w = r.random() < 0.6
            s = {'prop': 'C12', 'parts': ge.parts(recs, r.random() < 0.5, 'arc'), 'dec': True,
                 'opt': {'a2w': a2w, 'fmt': '' if a2w else r.choice(['', 'arc']), 'norec': r.random() < 0.1, 'ensure': r.random() < 0.2},
                 'codes': [c for x in recs for c in x['codes']],
                 'reopen': r.choice([[], ['seek', 'cut']])}
            s['pol'] = [r.choice([[['drain', 'raw', 'read', -1], ['extent']], [['drain', 'dec', 'read', -1], ['extent']],
                                  rand_pol(r, big)]) for _ in range(len(recs))]
            source(s, r, big)
            scn.append(s)
        return scn


CHECK = C12
