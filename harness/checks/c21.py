from checks.c02 import Base
from wgen import WGen

STREAMS = ['bytes', 'file', 'short', 'iobuf', 'noseek', 'limit', 'plain', 'buffered']


class C21(Base):
    pid = 'C21'
    technique = ('TLA+ model of making and writing a record explored by TLC over all ways to supply content; its '
                 'configurations, grouped by content, and random contents in many forms written by the real code, '
                 'each output judged by TLC and compared with the other forms')
    level_note = ('MCWriter (TLC, exhaustive) shows that stream kind, position, stated length and separate or embedded HTTP '
                  'headers do not matter. All configurations with the same content form one trace: the real writer writes them all '
                  'and TLC requires each to be the record of the specification and all to be equal. Random contents over all '
                  'buffer and spool boundaries in random forms likewise. Trusted: zlib, hashlib, TLC. ')
    assumptions = ['a stream of unknown length ends where the content ends; a stated length is true',
                   'digests given by the caller are dropped if the length is unknown (they are compared among known lengths)']

    def scenarios(self):
        r = self.rng
        groups = {}
        for c in self.gen('MCWriter', env={'WIDE': '0' if self.quick else '1'}):
            k = (c['type'], c['may'], c['http'] != 'none', c['n'], c['gp'], c['gb'], c['known'] or not (c['gp'] or c['gb']))
            groups.setdefault(k, []).append(c)
        scn = []
        for rounds in range(1 if self.quick else 6):
            for k, cs in sorted(groups.items()):
                st = r.getstate()
                recs = []
                first = self.concrete(cs[0])
                for c in cs:
                    x = self.concrete(c, uri=first['uri'])
                    body = first['content']
                    if x['pay'] is not None:
                        x['pay'] = x['pay'][:-1] + (body or [''])
                        x['content'] = body or ['']
                    recs.append(x)
                r.shuffle(recs)
                for i in range(0, len(recs), 14):
                    scn.append(self.case(recs[i:i + 14]))
        for i in range(250 if self.quick else 3000):
            ge = WGen(r, 0.25 if i % 10 == 0 else 0.0)
            typ = r.choice(['response', 'response', 'request', 'revisit', 'resource', 'metadata', 'warcinfo', 'conversion'])
            http = typ in ('response', 'request', 'revisit')
            body = ge.body()
            head = ge.httphead(typ)
            uri = 'http://x/\xe9' if http else r.choice(['dns:x', 'urn:a'])
            given = [['X-Own', 'a'], ['Content-Type', 'text/x']][:r.randrange(3)]
            whole = r.random() < 0.1
            recs = []
            for j in range(r.choice([3, 5, 8])):
                x = {'kind': 'plain', 'type': typ, 'uri': uri, 'known': r.random() < 0.5, 'http': None, 'content': body, 'pay': body, 'given': given}
                if http and (r.random() < 0.5 or not head['hdrs']):
                    x['http'] = head
                elif http:
                    x['pay'] = [ge.embed(head, True)] + body
                big = any(not isinstance(p, str) for p in body)
                k = r.choice(STREAMS)
                x['stream'] = [k, r.choice(['', 'pre', '\r\n', 'HTTP/1.1 200 OK\r\n', 'p' * 20000]) if k not in ('plain', 'buffered') else '']
                x['pieces'] = [r.choice([3000, 16384, 100000] if big else [1, 2, 5, 50]) for _ in range(r.randrange(1, 3))]
                if body == [''] and r.random() < 0.5 and (x['http'] or not http):
                    x['pay'] = x['content'] = None
                recs.append(x)
            scn.append(self.case(recs, WGen(r, 0).filter()))
        return scn

    def case(self, recs, flt=None):
        r = self.rng
        for x in recs:
            x['given'] = list(x['given']) + [['WARC-Record-ID', '<urn:uuid:00000000-0000-4000-8000-000000000009>'], ['WARC-Date', '2020-01-02T03:04:05Z']]
        return {'prop': 'C21', 'recs': recs, 'ops': [['write', i] for i in range(len(recs))], 'gzip': r.random() < 0.4,
                'out': r.choice(['bytes', 'iobuf', 'sink', 'buffer']), 'filter': flt, 'builder': r.random() < 0.2,
                'version': r.choice([None, '1.1'])}


CHECK = C21
