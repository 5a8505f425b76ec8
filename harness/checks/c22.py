from core import Check
from gen import S
from checks.c03 import from_model
from checks.c11 import RGen
from wgen import WGen

MODS = [['add', 'X-Copied', '1'], ['add', 'X-Copied', 'caf\xe9'], ['set', 'WARC-Record-ID', '<urn:uuid:00000000-0000-4000-8000-00000000000a>'],
        ['set', 'x-new', 'a: b'], ['set', 'warc-date', '2001-02-03T04:05:06Z'], ['del', 'WARC-IP-Address', ''], ['del', 'X-Nope', ''],
        ['del', 'WARC-Payload-Digest', ''], ['del', 'warc-block-digest', ''], ['set', 'WARC-Block-Digest', 'sha1:AAAA'],
        ['hset', 'X-A', 'changed'], ['hset', 'X-Added', '\u20ac; a="\xe9"'], ['hset', 'Content-Type', 'text/plain'], ['hdel', 'Set-Cookie', ''], ['hdel', 'X-Nope', '']]

CUT = ('WARC/1.0\r\nWARC-Type: resource\r\nWARC-Target-URI: http://a/\r\nWARC-Record-ID: <urn:x>\r\nWARC-Date: 2020-01-02T03:04:05Z\r\n'
       'Content-Length: 50\r\n\r\nshorter')


class C22(Check):
    pid = 'C22'
    driver = 'cli'
    trace = 'TraceCli'
    case_timeout = 60
    technique = ('TLA+ composition of the reader and writer specifications (read with options, change, write), checked by TLC on all small '
                 'archives for every combination of options; the real iterator and writer copy those and random archives, TLC judges every '
                 'record of the output')
    level_note = ('Every archive MCRecomp builds, and random ones (WARC, and ARC converted; records of all types, large blocks, digests, '
                  'unknown lengths, several members or none) are copied by the real code with random options (HTTP headers '
                  'parsed or not or supplied, verified, digests checked, block sizes, source pieces), selections, header changes, '
                  'header filters, compressed or not; TLC accepts only output which is, record by record, what the specification writes. '
                  'Trusted: zlib, hashlib, TLC. ')
    assumptions = ['a digest that a record has is kept, also where header changes make it wrong',
                   'ARC records are copied in conversion mode']

    def scenarios(self):
        r = self.rng
        scn = []
        for kind in ('warc', 'arc'):
            wide = {'warc': '2' if self.quick else '4', 'arc': '2' if self.quick else '3'}[kind]
            g = self.gen('MCCopy', env={'KIND': kind, 'DEPTH': '2', 'WIDE': wide}, timeout=2000)
            self.notes['layouts_' + kind] = len(g)
            for x in g:
                if self.quick and r.random() < 0.2:
                    continue
                scn.append(self.case(from_model(x), [], kind, False, n=2))
        for i in range(450 if self.quick else 5000):
            big = i % 12 == 0
            ge = RGen(r, 0.5 if big else 0.0)
            kind = r.choice(['warc', 'warc', 'warc', 'arc'])
            recs = [ge.some() if kind == 'warc' else ge.arc(filedesc=(j == 0 and r.random() < 0.5)) for j in range(r.choice([0, 1, 1, 2, 3, 5]))]
            alone = any(x.get('alone') for x in recs)
            digs = [d for x in recs for d in x['digs']]
            if alone:
                parts = [{'gz': True, 'text': self.text(x, ge.sep())} for x in recs]
            else:
                parts = ge.parts(recs, r.random() < 0.5, kind, many=r.choice([0, 0, 0, 0.3]))
            scn.append(self.case(parts, digs, kind, any(x['type'] == 'revisit' for x in recs), blobs=big))
        return scn + [self.cut() for _ in range(24 if self.quick else 200)] + self.findings()

    # the last record ends early: what there is of it is written, with its true length
    def cut(self):
        r = self.rng
        head = 'HTTP/1.%d 200 OK\r\n%s\r\n' % (r.choice([0, 1]), r.choice(['', 'A: b\r\n', 'Content-Type: text/html\r\nX: y\r\n']))
        body = 'x' * r.choice([0, 1, 2, 10, 300]) + r.choice(['', '\r\n', '\r\n\r\n', 'WARC/1.0\r\n', '\0'])
        t = ('WARC/1.%d\r\nWARC-Type: %s\r\nWARC-Target-URI: http://a/%s\r\nWARC-Record-ID: <urn:x>\r\nWARC-Date: 2020-01-02T03:04:05Z\r\n'
             'Content-Length: %d\r\n%s\r\n' % (r.choice([0, 1]), 'response', r.randrange(99),
                                             len(head) + len(body) + r.choice([1, 2, 5, 4000]),
                                             r.choice(['', '', 'WARC-Payload-Digest: sha1:ABC\r\n', 'WARC-Block-Digest: sha1:ABC\r\n'])))
        whole = RGen(r, 0).some()
        parts = [{'gz': True, 'text': self.text(whole, '\r\n\r\n')}] if r.random() < 0.5 else []
        if parts and whole.get('alone'):
            parts = []
        x = self.case(parts + [{'gz': True, 'text': t + head + body}], whole['digs'] if parts else [], 'warc', True)
        for op in x['ops']:
            op[1]['opt']['norec'] = False
            op[1]['chk'] = False
            op[1]['mods'] = []
        return x

    def findings(self):
        block = 'HTTP/1.1 200 OK\r\nA: b\r\n\r\nxyz'
        t = ('WARC/1.0\r\nWARC-Type: revisit\r\nWARC-Target-URI: http://a/\r\nWARC-Record-ID: <urn:x>\r\nWARC-Date: 2020-01-02T03:04:05Z\r\n'
             'Content-Length: %d\r\n\r\n%s\r\n\r\n' % (len(block), block))
        op = ['copy', {'file': 1, 'opt': {}, 'gzip': False, 'pick': [], 'mods': []}]
        return [{'prop': 'C22', 'files': [{'name': 'a', 'parts': [{'gz': True, 'text': t}]}], 'ops': [op], 'algs': ['sha1'], 'digs': [], 'finding': 'copy-revisit-payload'},
                {'prop': 'C22', 'files': [{'name': 'a', 'parts': [{'gz': True, 'text': CUT}]}], 'ops': [op], 'algs': ['sha1'], 'digs': [], 'finding': 'copy-cut-record'}]

    def text(self, x, sep):
        t = list(x['text']) + ([] if x.get('alone') else [sep])
        return t if any(not isinstance(p, str) for p in t) else ''.join(t)

    def case(self, parts, digs, kind, revisits, n=2, blobs=False):
        r = self.rng
        ops = []
        for _ in range(n):
            opt = {'a2w': kind == 'arc' or r.random() < 0.3, 'norec': r.random() < 0.4, 'ensure': not revisits and r.random() < 0.25,
                   'verify': r.random() < 0.1}
            ops.append(['copy', {'file': 1, 'opt': opt, 'chk': r.choice([False, False, True]), 'gzip': r.random() < 0.5,
                                 'buffer': r.random() < 0.3, 'version': r.choice([None, None, '1.1', 1.0]),
                                 'pick': r.choice([[], [], [], [1, 0], [0, 1], [1, 0, 0], [0]]),
                                 'mods': [r.choice(MODS) for _ in range(r.choice([0, 0, 0, 1, 2, 4]))],
                                 'filter': WGen(r, 0).filter(), 'bs': r.choice([None, None, 1000, 7000, 40000] if blobs else [None, None, 1, 2, 7, 64, 1000]),
                                 'pieces': r.choice([None, None, [3000, 20000]] if blobs else [None, None, [1], [5, 2], [100]]), 'untell': r.random() < 0.3}])
        return {'prop': 'C22', 'files': [{'name': 'a', 'parts': parts}], 'ops': ops, 'algs': ['sha1'], 'digs': digs}


CHECK = C22
