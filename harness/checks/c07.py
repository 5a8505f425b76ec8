import base64
import hashlib
from core import Check
from gen import Gen, raw, rand_pol, S, has_blob
from checks.c03 import source

ALGS = ['sha1', 'md5', 'sha224', 'sha256', 'sha384', 'sha512', 'sha3_256', 'blake2b', 'blake2s']
FORMS = ['b32', 'b16', 'B16', 'M16', 'b64', 'u64', 'b32n', 'b64n', 'u64n']


def encode(d, form):
    v = {'b32': base64.b32encode, 'b16': base64.b16encode, 'B16': base64.b16encode, 'M16': base64.b16encode, 'b64': base64.b64encode,
         'u64': base64.urlsafe_b64encode}[form[:3]](d).decode()
    if form == 'b16':
        v = v.lower()
    if form == 'M16':
        v = ''.join(x.lower() if i % 3 else x for i, x in enumerate(v))
    return v.rstrip('=') if form.endswith('n') else v


def good(r, data, alg=None, form=None):
    alg = alg or r.choice(['sha1'] * 4 + ALGS)
    return '%s:%s' % (alg, encode(hashlib.new(alg, data).digest(), form or r.choice(FORMS)))


def bad(r, data, other=b''):
    """a digest value that is not that of data"""
    alg = r.choice(['sha1'] * 4 + ALGS)
    d = hashlib.new(alg, data).digest()
    k = r.randrange(12)
    if k == 0:
        d = bytes([d[0] ^ (1 << r.randrange(8))]) + d[1:]
    elif k == 1:
        d = d[:-1] + bytes([d[-1] ^ 1])
    elif k == 2:
        d = d[:-1]
    elif k == 3:
        d = d + b'\0'
    elif k == 4:
        return alg + ':' + base64.b32encode(d).decode().lower()
    elif k == 5:
        return alg + ':'
    elif k == 6:
        return alg + ':' + base64.b32encode(d).decode()[:-9]
    elif k == 7:
        return alg + ':' + r.choice(['!!!!', '=', '====', 'x', '\xc3\xa9', '0', 'sha1:' + encode(d, 'b32'), encode(d, 'b32') + ' x'])
    elif k == 8 and other != data:
        return good(r, other)
    elif k == 9:
        return ('md5:' if alg != 'md5' else 'sha1:') + encode(d, r.choice(FORMS))
    elif k == 10:
        d = bytes(len(d))
    else:
        return good(r, data + r.choice([b'\0', b'\n', b'\r\n', b'x']))
    return alg + ':' + encode(d, r.choice(FORMS))


def unknown(r, data):
    d = encode(hashlib.sha1(data).digest(), 'b32')
    return r.choice(['foo:' + d, d, 'sha0:' + d, 'crc32:' + d, ':' + d, ':', 'nothing', 'sha1=' + d, 'urn:sha1:' + d, 'shake_128:' + d,
                     'sha1;' + d, '\xc3\xa9:' + d])


class C07(Check):
    pid = 'C07'
    driver = 'archive'
    trace = 'TraceArchive'
    technique = ('TLA+ model of the incremental digest checker refined against the definition of the verdict over the '
                 'whole record; every behaviour TLC explores is replayed on the real reader, verdicts judged by TLC')
    level_note = ('TLC explores every combination of record kind, state of both digest headers, parsing option and '
                  'read sequence (sizes 0-4) and each is replayed with concrete algorithms and encodings; random '
                  'archives with large blocks, segments, malformed values and all reading modes are judged the same '
                  'way, including log and raise modes. Trusted: hashlib as the table of digests, zlib, TLC. ')
    assumptions = ['hashlib computes the digests; the set of supported algorithms is hashlib\'s fixed-length ones']

    def scenarios(self):
        r = self.rng
        scn = []
        beh = self.gen('MCDigest', env={'WIDE': '0' if self.quick else '1'})
        if self.quick:
            # every configuration, some of its read sequences
            r.shuffle(beh)
            seen = {}
            keep = []
            for g in beh:
                k = repr(sorted(g['cf'].items()))
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= 3:
                    keep.append(g)
            beh = keep
        for g in beh:
            scn.append(self.concrete(g['cf'], g['reads'], r))
        for i in range(600 if self.quick else 6000):
            ge = Gen(r, 0.6 if i % 10 == 0 else 0.0)
            kind = r.choice(['warc'] * 6 + ['arc'])
            recs = []
            for j in range(r.randrange(1, 4)):
                recs.append(self.rec(ge, r) if kind == 'warc' else ge.arc(filedesc=(j == 0 and r.random() < 0.5)))
            parts = ge.parts(recs, r.random() < 0.5, kind)
            big = has_blob(parts)
            chk = r.choice(['on', 'on', 'log', 'raise', 'off'])
            s = {'prop': 'C07', 'parts': parts, 'chk': chk, 'algs': ALGS, 'digs': [d for x in recs for d in x['digs']],
                 'codes': [c for x in recs for c in x['codes']],
                 'opt': {'a2w': kind == 'arc' and r.random() < 0.4, 'norec': r.random() < 0.2, 'ensure': r.random() < 0.1}}
            s['pol'] = [self.pol(r, big) for _ in range(3)]
            s['dec'] = any('dec' in op for p in s['pol'] for op in p)
            source(s, r, big)
            scn.append(s)
        for i in range(150 if self.quick else 1500):
            scn.append(self.cut(Gen(r), r))
        return scn

    # the data ends before the last record does
    def cut(self, ge, r):
        body = ge.lines(r.choice([0, 1, 5, 40]))
        http = r.random() < 0.5
        head = r.choice(['HTTP/1.1 200 OK\r\n\r\n', 'HTTP/1.0 404 x\r\nA: b\r\n\r\n']) if http else ''
        if not head and not body:
            body = 'x'
        block = head + body
        b, p = block.encode('latin-1'), body.encode('latin-1')
        more = 'y' * r.choice([1, 2, 30])
        hs = []
        for name, data, other in (('WARC-Block-Digest', b, p), ('WARC-Payload-Digest', p, b)):
            k = r.randrange(7)
            if k < 2:
                hs.append((name, good(r, data)))
            elif k < 4:
                hs.append((name, good(r, data + more.encode())))
            elif k == 4:
                hs.append((name, r.choice([bad(r, data, other), unknown(r, data)])))
        if r.random() < 0.1:
            hs.append(('WARC-Segment-Number', '1'))
        t = 'WARC/1.0\r\nWARC-Type: %s\r\nWARC-Target-URI: http://x/\r\nContent-Length: %d\r\n%s\r\n' % (
            'response' if http else r.choice(['resource', 'metadata', 'revisit']), len(block) + r.choice([1, len(more), 4000]),
            ''.join('%s: %s\r\n' % h for h in hs))
        prev = ge.warc(digests=False) if r.random() < 0.3 else None
        gz = r.random() < 0.5
        parts = ge.parts([prev], gz) if prev and not prev.get('alone') else []
        if not (parts and not gz):
            parts = parts + [{'gz': gz, 'text': t + block}]
        else:
            parts = [{'gz': False, 'text': t + block}]
            prev = None
        pol = [self.pol(r, False) for _ in range(2)]
        return {'prop': 'C07', 'parts': parts, 'chk': r.choice(['on', 'on', 'log', 'raise']), 'algs': ALGS, 'dec': any('dec' in op for p in pol for op in p),
                'digs': [[block], [body]] + (prev['digs'] if prev and len(parts) > 1 else []), 'opt': {'norec': r.random() < 0.2},
                'pol': pol, 'codes': []}

    def pol(self, r, big):
        p = [op for op in rand_pol(r, big, chk=True) if op[0] != 'stale']
        if r.random() < 0.3:
            p.insert(r.randrange(len(p) + 1), ['early'])
        k = r.randrange(4)
        if k == 0 or any('dec' in op for op in p):
            p += [['extent'], ['verdict']]
        elif k == 1:
            p += [['drain', 'raw', 'read', -1], ['verdict']]
        elif k == 2:
            p += [['drain', 'raw', 'read', r.choice([1, 7, 1000])] if not big else ['gather', 'raw', r.choice([9000, 16384, 1000])], ['verdict'], ['extent'], ['verdict']]
        elif not big:
            p += [['drain', 'raw', 'line', r.choice([-1, 5])], ['verdict']]
        return [['late', r.choice([1, 2])]] + p if r.random() < 0.4 else p

    def value(self, st, r, data, other):
        return {'good': good(r, data), 'bad': bad(r, data, other), 'unknown': unknown(r, data)}[st]

    def concrete(self, cf, reads, r):
        unit = r.choice([1, 1, 1, 3, 20])
        ge = Gen(r)
        body = ge.lines(cf['p'] * unit)
        head = r.choice(['HTTP/1.1 200 OK\r\n\r\n', 'HTTP/1.0 404 x\r\nA: b\r\nC: d\r\n\r\n']) if cf['h'] else ''
        block = head + body
        b, p = block.encode('latin-1'), body.encode('latin-1')
        hs = []
        if cf['bd'] != 'absent':
            hs.append(('WARC-Block-Digest', self.value(cf['bd'], r, b, p)))
        if cf['pd'] != 'absent':
            hs.append(('WARC-Payload-Digest', self.value(cf['pd'], r, p, b)))
        if cf['kind'] == 'segment':
            hs.append(('WARC-Segment-Number', r.choice(['1', '2'])))
        if cf['kind'] == 'revisit':
            typ, uri = 'revisit', 'http://x/' if head else 'dns:x'
        elif head:
            typ, uri = 'response', 'http://x/'
        else:
            typ, uri = r.choice([('resource', 'http://x/'), ('warcinfo', None), ('metadata', 'urn:x'), ('response', 'dns:x'), ('conversion', 'http://x/')])
        x = ge.warc(type=typ, uri=uri, block=[block], headers=hs, digests=False)
        nxt = ge.warc(digests=False)
        s = {'prop': 'C07', 'parts': ge.parts([x, nxt], r.random() < 0.5), 'chk': {'on': r.choice(['on', 'log'])}.get(cf['mode'], cf['mode']),
             'algs': ALGS, 'digs': [[block], [body]] + nxt['digs'], 'opt': {'norec': cf['norec']}, 'once': 1}
        ops = []
        for n in reads:
            if n > 0 and unit == 1 and r.random() < 0.5:
                ops.append(['early'])
            ops.append([r.choice(['read', 'read', 'line']), 'raw', n * unit if n > 0 else -1])
        s['pol'] = [ops + r.choice([[['drain', 'raw', 'read', -1], ['verdict']], [['extent'], ['verdict']], [['drain', 'raw', 'line', -1], ['verdict']]]),
                    [['late', 1]]]
        if r.random() < 0.3:
            source(s, r)
        return s

    def rec(self, ge, r):
        x = ge.warc(digests=False)
        dat = [raw(d) for d in x['digs']]
        hs = []
        for name, data, other in (('WARC-Block-Digest', dat[0], dat[-1]), ('WARC-Payload-Digest', dat[-1], dat[0])):
            k = r.randrange(8)
            if k < 3:
                hs.append((name, good(r, data)))
            elif k < 5:
                hs.append((name, bad(r, data, other)))
            elif k == 5:
                hs.append((r.choice([name.lower(), name.upper()]), r.choice([good(r, data), unknown(r, data), ''])))
        if r.random() < 0.1:
            hs.append(('WARC-Segment-Number', '1'))
        # into the header block, before its blank line
        t = x['text'][0]
        end = t.index('\n') + 1
        x['text'] = [t[:end] + ''.join('%s: %s\r\n' % h for h in hs) + t[end:]] + x['text'][1:]
        return x


CHECK = C07
