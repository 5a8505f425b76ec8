from core import Check
from gen import Gen
from checks.c03 import from_model

FIELDS = ['offset', 'length', 'filename', 'warc-type', 'warc-target-uri', 'WARC-Date', 'warc-record-id', 'Content-Length', 'content-type', 'X-Unicode',
          'x-folded', 'warc-ip-address', 'WARC-Payload-Digest', 'no-such', 'http:status', 'http:content-type', 'http:Set-Cookie', 'http:x-a', 'http:',
          'http:no', 'uri', 'warc-filename', 'http:U', 'http:Colon',
          'x-empty', 'X-Twice', 'x-colon', 'x-log', 'X-L1', 'x-space', 'x-n3', 'x-type', 'X-Long', 'http:Empty', 'http:X-Log', 'http:X-Long', 'http:X-Fold', 'http:X-N99',
          'http:statuS', 'http:X-Url', 'http:X-L1', 'http:status', 'Offset', 'LENGTH', 'HTTP:status', 'warc-block-digest', 'ip-address', 'archive-date', 'http:x-tab']
NAMES = ['a.warc.gz', 'b.arc', 'sub/a.warc.gz', 'with space.warc', 'caf\xe9.gz', 'c', 'q?x=1.warc', 'h#1&2.gz', 'a:b;c', '%20a', 'd\\e', '.hid', 'sub/dir.d/b.arc.gz', "it's"]


class C15(Check):
    pid = 'C15'
    driver = 'cli'
    trace = 'TraceCli'
    case_timeout = 40
    technique = ('TLA+ definition of index lines and extracted bytes over the reference archive reader; the commands are run on '
                 'TLC-built and random archives, every line and every extraction judged by TLC')
    level_note = ('All small archives of MCArchive and random larger ones (WARC and ARC, compressed or not, coded bodies, several '
                  'inputs, stdin, output file) are indexed with random field lists and every record is extracted, in all three '
                  'modes, at the offset the index gave; TLC accepts only the lines and bytes the specification gives. '
                  'Headers are compared in their serialised form. Trusted: zlib, brotli, TLC. ')
    assumptions = ['extraction of ARC records is judged for --payload only (ARC headers cannot be output, as the documentation of the tests says)']

    def fields(self):
        r = self.rng
        k = r.randrange(6)
        if k == 0:
            return []
        if k == 1:
            return ['offset', 'length']
        fs = FIELDS if k < 4 else [f for f in FIELDS if not f.startswith('http')]
        return [r.choice(fs) for _ in range(r.randrange(1, 7))]

    def scenarios(self):
        r = self.rng
        scn = []
        for kind in ('warc', 'arc'):
            for g in self.gen('MCArchive', env={'KIND': kind, 'DEPTH': '2', 'WIDE': {'warc': '3' if self.quick else '10', 'arc': '2' if self.quick else '3'}[kind]}):
                if g['multi'] or r.random() < (0.75 if self.quick else 0.5):
                    continue
                scn.append({'prop': 'C15', 'files': [{'name': r.choice(NAMES), 'parts': from_model(g)}],
                            'ops': [['index', [1], self.fields(), r.choice(['', 'file', 'stdin'])],
                                    ['extract', 1, ['all', 'headers', 'payload']]]})
        for s in scn:
            for op in s['ops']:
                if op[0] == 'index' and op[3] == 'stdin':
                    s['files'][0]['name'] = '-'
                    s['ops'] = [op]
        for i in range(500 if self.quick else 5000):
            big = i % 12 == 0
            ge = Gen(r, 0.5 if big else 0.0)
            files, codes = [], []
            for name in r.sample(NAMES, r.choice([1, 1, 2, 3])):
                kind = r.choice(['warc', 'warc', 'warc', 'arc'])
                recs = [ge.warc(coded=0.6) if kind == 'warc' else ge.arc(filedesc=(j == 0 and r.random() < 0.7)) for j in range(r.choice([0, 1, 2, 4]))]
                if kind == 'warc' and r.random() < 0.1:
                    recs.append(ge.warc(type=r.choice(['response', 'request']), uri='http://x/', block=[r.choice(['\r\nabc', '\n', '\r\n\r\nx'])]))
                codes += [c for x in recs for c in x['codes']]
                files.append({'name': name, 'parts': ge.parts(recs, r.random() < 0.6, kind)})
            ops = []
            for _ in range(r.choice([1, 2, 3])):
                how = r.choice(['', '', 'file'])
                ins = [r.randrange(1, len(files) + 1) for _ in range(r.choice([1, 1, 2, 3]))]
                ops.append(['index', ins, self.fields(), how])
            for j in range(len(files)):
                ops.append(['extract', j + 1, r.sample(['all', 'headers', 'payload'], 1 if big else 2)])
            if r.random() < 0.15:
                files[0]['name'] = '-'
                ops = [['index', [1], self.fields(), 'stdin']]
            scn.append({'prop': 'C15', 'files': files, 'ops': ops, 'codes': codes})
        # records around multiples of what is read at once
        for n in [65536, 65537, 81919, 81920, 81921, 98303, 98304, 98305, 163840, 163841, 200000, 524289]:
            typ = r.choice(['response', 'resource', 'request'])
            ge = Gen(r, 0.0)
            ge.nblob = 1
            head = [] if typ == 'resource' else ['HTTP/1.1 200 OK\r\nA: b\r\n\r\n'] if typ == 'response' else ['GET / HTTP/1.1\r\nA: b\r\n\r\n']
            recs = [ge.warc(type=typ, uri='http://x/', block=head + [[1, n]]), ge.warc(coded=0.6)]
            scn.append({'prop': 'C15', 'files': [{'name': 'a', 'parts': ge.parts(recs, r.random() < 0.6, 'warc')}], 'ops': [['extract', 1, ['all', r.choice(['headers', 'payload'])]]],
                        'codes': [c for x in recs for c in x['codes']]})
        return scn


CHECK = C15
