from core import Check
from gen import BOUNDARY
from wgen import WGen


class Base(Check):
    driver = 'writer'
    trace = 'TraceWriter'
    case_timeout = 30

    def random(self, n, bigs=20):
        r = self.rng
        scn = []
        for i in range(n):
            ge = WGen(r, 0.5 if i % bigs == 0 else 0.0)
            plan = [r.choice(['write', 'write', 'write', 'write', 'pair', 'contents']) for _ in range(r.choice([1, 2, 3, 5]))]
            recs, ops = [], []
            for p in plan:
                if p == 'write':
                    recs.append(ge.rec())
                    if r.random() < 0.4:
                        ge.again(recs, len(recs) - 1)
                    ops.append(['write', len(recs) - 1])
                elif p == 'pair':
                    two = []
                    uri = 'http://pair/' + r.choice(['', 'x', '\xe9'])
                    for typ in ('response', 'request'):
                        x = ge.rec(typ, kind='plain', http='none', pair=True)
                        x['uri'] = uri
                        h = ge.httphead(typ)
                        body = ge.body() if typ == 'response' else [r.choice(['', 'a=b'])]
                        if r.random() < 0.5:
                            x['http'], x['pay'] = h, body
                        else:
                            x['pay'] = [ge.embed(h, r.random() < 0.7)] + body
                            x['http'] = None
                        x['content'] = body
                        if not x.get('stream'):
                            x['stream'], x['pieces'] = ge.src()
                        two.append(x)
                    recs += two
                    ops.append(['pair', len(recs) - 2, len(recs) - 1])
                else:
                    ops.append(['contents', 'contents'])
            out = r.choice(['bytes', 'iobuf', 'sink', 'buffer', 'buffer'] if not any(o[0] == 'contents' for o in ops) else ['buffer'])
            if out == 'buffer' and r.random() < 0.5:
                ops.append(['contents', r.choice(['contents', 'stream'])])
                if ops[-1][1] == 'contents' and recs and r.random() < 0.5:
                    recs.append(ge.rec())
                    ops += [['write', len(recs) - 1], ['contents', 'contents']]
            s = {'prop': self.pid, 'recs': recs, 'ops': ops, 'gzip': r.random() < 0.6, 'out': out, 'filter': ge.filter(), 'builder': r.random() < 0.2}
            v = r.choice([None, None, '1.0', '1.1', 'WARC/1.1', 1.1])
            if v:
                s['version'] = v
            if out == 'iobuf':
                s['bufsize'] = r.choice([1, 100, 1 << 20])
            scn.append(s)
        return scn


    HEAD = {'proto': 'HTTP/1.1', 'status': '200 OK', 'hdrs': [['A', 'b'], ['C', 'd']]}

    def concrete(self, c, **fix):
        """a configuration of MCWriter as a record to write"""
        r = self.rng
        body = r.choice(['x', 'ab', '\r\n', '\r\n\r\n', BOUNDARY, '\x1f\x8b', 'HTTP/1.1 200 OK\r\n\r\n'])
        body = ''.join(body + str(i) for i in range(c['n']))
        x = {'kind': 'plain', 'type': c['type'], 'uri': 'http://x/' if c['may'] else r.choice(['dns:x', 'urn:y', 'ftp://z/']), 'known': c['known'],
             'http': None, 'content': [body], 'pay': [body], 'pieces': [r.choice([1, 2, 3, 1000])]}
        if c['http'] == 'sep':
            x['http'] = self.HEAD
        elif c['http'] == 'emb':
            x['pay'] = ['HTTP/1.1 200 OK\r\nA: b\r\nC: d\r\n\r\n', body]
        if c['nopay']:
            x['pay'] = x['content'] = None
        if c['type'] == 'warcinfo':
            x['uri'] = ''
        pre = r.choice(['xx', '\r\n', 'HTTP/1.1 200 OK\r\n', 'z' * 70000]) if c['pre'] else ''
        x['stream'] = [r.choice({'seek': ['bytes', 'file', 'short', 'iobuf'], 'tell': ['noseek'] + ['limit'] * (c['pre'] > 0), 'none': ['plain', 'limit', 'buffered']}[c['kind']]), pre]
        x['given'] = ([['WARC-Payload-Digest', 'sha1:AAAA']] if c['gp'] else []) + ([['WARC-Block-Digest', 'sha1:BBBB']] if c['gb'] else [])
        x.update(fix)
        return x

    def model(self):
        r = self.rng
        scn = []
        for c in self.gen('MCWriter', env={'WIDE': '0' if self.quick else '1'}):
            recs = [self.concrete(c)]
            if r.random() < 0.3:
                # something follows in the same output
                recs.append(WGen(r, 0).rec())
            gzip = r.random() < 0.5
            out = r.choice(['bytes', 'buffer', 'iobuf', 'sink'])
            scn.append({'prop': self.pid, 'recs': recs, 'ops': [['write', i] for i in range(len(recs))] + ([['contents', 'contents']] if out == 'buffer' else []),
                        'gzip': gzip, 'out': out, 'filter': None, 'builder': r.random() < 0.2})
        return scn


class C02(Base):
    def spooled(self):
        """in-memory outputs large enough to be put into a file, looked at in between"""
        r = self.rng
        scn = []
        for i in range(24 if self.quick else 150):
            recs, ops = [], []
            for j in range(r.choice([2, 3])):
                x = WGen(r, 0).rec()
                if j == 0 or r.random() < 0.3:
                    x = {'kind': 'plain', 'type': 'resource', 'uri': 'urn:big', 'known': r.random() < 0.5, 'stream': ['bytes', ''], 'pieces': [],
                         'given': []}
                    x['pay'] = x['content'] = [['x', [i * 8 + j + 1, r.choice([300000, 524287, 524289, 600000])], 'y'], [[i * 8 + j + 1, 524288]]][r.random() < 0.2]
                recs.append(x)
                ops += [['write', len(recs) - 1], ['contents', 'contents']]
                if r.random() < 0.3:
                    ops.append(['contents', 'contents'])
            scn.append({'prop': self.pid, 'recs': recs, 'ops': ops, 'gzip': r.random() < 0.2, 'out': 'buffer', 'filter': None, 'builder': False})
        return scn

    pid = 'C02'
    technique = ('TLA+ model of making and writing a record (every way to supply content, TLC-exhaustive) and TLA+ '
                 'definition of the exact output; each model configuration and many random sequences of records '
                 'run through the real writer, every output judged by TLC byte for byte')
    level_note = ('MCWriter (TLC, exhaustive over type, HTTP headers none/separate/embedded, URI kind, stream position and '
                  'seekability, known length, given digests) shows length, block and digests are right; every configuration '
                  'is run on the real writer. TraceWriter accepts only output that is version line, header lines, blank line, '
                  'Content-Length block bytes, two CRLFs, with digests looked up in a table of hashes of the data; '
                  'one gzip member per record; in-memory contents after each write. Trusted: zlib, hashlib, TLC. ')
    assumptions = ['hashlib and zlib are correct', 'one record object is written once', 'get_contents() is the way to read an in-memory writer (get_stream() hands out its buffer)']

    def scenarios(self):
        return self.model() + self.spooled() + self.random(900 if self.quick else 8000)


CHECK = C02
