from core import Check
from gen import Gen, S, canonical
from checks.c03 import from_model
from checks.c20 import NEITHER


class RGen(Gen):
    """records whose HTTP headers are in the form the writer gives them, where asked for"""
    canon = False

    def http(self, kind='response'):
        while True:
            st, hs = Gen.http(self, kind)
            if not self.canon or canonical(st + '\r\n' + hs + '\r\n'):
                return st, hs

    def warc(self, **k):
        # reading takes one pair of brackets from a URI; with two, each time one
        while True:
            x = Gen.warc(self, **k)
            if 'URI: <<' not in str(x['text'][0]):
                return x

    def some(self, **k):
        r = self.r
        digests = r.random() < 0.4
        self.canon = digests
        typ = k.pop('type', None) or r.choice(['response'] * 6 + ['request', 'request', 'resource', 'metadata', 'warcinfo', 'revisit', 'conversion', 'x-own'])
        if typ == 'revisit':
            # without HTTP headers, or with nothing but HTTP headers
            uri = r.choice(['http://a/b', 'ftp://x/'])
            st, hs = self.http()
            block = [r.choice(['', st + '\r\n' + hs + '\r\n'])] if uri == 'http://a/b' else self.payload()
            x = self.warc(type=typ, uri=uri, block=block, digests=False, headers=[('WARC-Payload-Digest', 'sha1:AAAA')] if r.random() < 0.7 else [], **k)
        elif r.random() < 0.12:
            # no HTTP headers at all in a record that may have some
            block = [r.choice(['\r\nabc', '\r\n', '\r\n\r\nx', '\n' if not digests else '\r\n'])]
            x = self.warc(type=r.choice(['response', 'request']), uri='http://x/', block=block, digests=digests, **k)
        elif typ == 'response' and r.random() < 0.1:
            # of unknown length, alone in its member
            x = self.warc(type=typ, length=None, digests=False, **k)
            x['alone'] = True
        else:
            x = self.warc(type=typ, digests=digests, good=r.random() < 0.8, **k)
        return x


class C11(Check):
    pid = 'C11'
    driver = 'cli'
    trace = 'TraceCli'
    case_timeout = 60
    technique = ('TLA+ model of recompression (composition of the reader and writer specifications), checked by TLC on all small '
                 'archives and member layouts (all records, same records, fixed point); the real command is run on those and on random '
                 'archives, its output judged by TLC')
    level_note = ('Every archive MCRecomp builds (record shapes, separators, several records per gzip member, blank members) and random '
                  'ones (WARC and ARC, large blocks, digests, unknown lengths, whole file in one member, no archives) are '
                  'recompressed by the command twice; TLC accepts only output with one gzip member per record, holding exactly the record '
                  'the specification gives (headers, block, digests), a failing exit status where the input is no archive, and a second run that changes '
                  'nothing. Trusted: zlib, hashlib, TLC. ')
    assumptions = ['record headers with non-ASCII characters are compared as the bytes the writer specification gives (percent-encoding)',
                   'archives whose last record is cut off are not judged',
                   'a target URI in no more than one pair of angle brackets']

    def scenarios(self):
        r = self.rng
        scn = []
        for kind in ('warc', 'arc'):
            wide = {'warc': '3' if self.quick else '4', 'arc': '2' if self.quick else '3'}[kind]
            g = self.gen('MCRecomp', env={'KIND': kind, 'DEPTH': '2', 'WIDE': wide}, timeout=2000)
            self.notes['layouts_' + kind] = len(g)
            for x in g:
                if self.quick and r.random() < 0.4:
                    continue
                scn.append(self.case([{'name': 'a.warc.gz', 'parts': from_model(x)}], [], ['sha1']))
        for i in range(500 if self.quick else 5000):
            big = i % 10 == 0
            ge = RGen(r, 0.5 if big else 0.0)
            kind = r.choice(['warc', 'warc', 'warc', 'arc'])
            recs = [ge.some() if kind == 'warc' else ge.arc(filedesc=(j == 0 and r.random() < 0.5)) for j in range(r.choice([0, 1, 1, 2, 3, 5]))]
            zip_ = r.random() < 0.6 or any(x.get('alone') for x in recs)
            digs = [d for x in recs for d in x['digs']]
            if any(x.get('alone') for x in recs):
                parts = [{'gz': True, 'text': self.text(x, ge.sep())} for x in recs]
            else:
                parts = ge.parts(recs, zip_, kind, many=r.choice([0, 0, 0.3, 1]))
            if i % 9 == 4 and recs and not big and not any(x.get('alone') for x in recs):
                # all in one member, or members that end anywhere
                t = ''.join(p['text'] for p in ge.parts(recs, False, kind))
                cuts = sorted(r.randrange(len(t) + 1) for _ in range(r.choice([0, 1, 2])))
                parts = [{'gz': True, 'text': t[a:b]} for a, b in zip([0] + cuts, cuts + [len(t)])]
            scn.append(self.case([{'name': 'a', 'parts': parts}], digs, ['sha1', 'md5', 'sha256']))
        for t in [t for t in NEITHER if not t.startswith(('WARC/', '\x1f\x8b'))]:
            for z in (True, False):
                scn.append(self.case([{'name': 'a', 'parts': [{'gz': z, 'text': t}]}], [], ['sha1']))
        scn.append(self.case([{'name': 'a', 'parts': [], 'there': False}], [], ['sha1']))
        return scn + self.findings()

    def text(self, x, sep):
        t = list(x['text']) + ([] if x.get('alone') else [sep])
        return t if any(not isinstance(p, str) for p in t) else ''.join(t)

    def case(self, files, digs, algs):
        r = self.rng
        ops = [['recompress', 1, r.random() < 0.3, r.random() < 0.2], ['recompress', 0, r.random() < 0.1, r.random() < 0.1]]
        return {'prop': 'C11', 'files': files, 'ops': ops, 'algs': algs, 'digs': digs}

    def findings(self):
        """inputs of the known findings"""
        import hashlib
        import base64

        def sha1(t):
            return 'sha1:' + base64.b32encode(hashlib.sha1(t.encode('latin-1')).digest()).decode()
        out = []
        for tag, typ, block, hs in [
                ('recompress-noncanonical-http', 'response', 'HTTP/1.1 200 OK\r\nA:b\r\n\r\nx', True),
                ('recompress-revisit-payload', 'revisit', 'HTTP/1.1 200 OK\r\nA: b\r\n\r\nxyz', False)]:
            t = 'WARC/1.0\r\nWARC-Type: %s\r\nWARC-Target-URI: http://a/\r\nWARC-Record-ID: <urn:x>\r\nWARC-Date: 2020-01-02T03:04:05Z\r\n' % typ
            if hs:
                t += 'WARC-Block-Digest: %s\r\n' % sha1(block)
            t += 'Content-Length: %d\r\n\r\n%s\r\n\r\n' % (len(block), block)
            s = self.case([{'name': 'a', 'parts': [{'gz': True, 'text': t}]}], [block], ['sha1'])
            s['finding'] = tag
            out.append(s)
        return out


CHECK = C11
