"""Iterates over archives (C03, C04, C07, C10, C12, C16, C20)."""
import contextlib
import hashlib
import io
import os
import sys
import zlib
from core import T, H
from warcio.warcwriter import WARCWriter
from warcio.archiveiterator import ArchiveIterator, WARCIterator, ARCIterator

BLOB = 1 << 30


def L(s):
    return s.encode('latin-1')


def gz(data, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


def blob(i, n):
    """block number i of n bytes; no two have anything in common"""
    return hashlib.shake_128(b'blob%d-%d' % (i, n)).digest(n)


class Blobs(object):
    def __init__(self, specs):
        self.b = [(BLOB + i * (1 << 22) + n, blob(i, n)) for i, n in specs]

    def enc(self, data):
        """bytes -> integers, with known blocks as tokens"""
        if len(data) < 4096 or not self.b:
            return list(data)
        out, pos = [], 0
        while pos < len(data):
            best = None
            for tok, b in self.b:
                k = data.find(b, pos)
                if k >= 0 and (best is None or k < best[0]):
                    best = (k, tok, len(b))
            if best is None:
                out += list(data[pos:])
                break
            out += list(data[pos:best[0]]) + [best[1]]
            pos = best[0] + best[2]
        return out


def text(pieces):
    if isinstance(pieces, str):
        return L(pieces)
    return b''.join(L(p) if isinstance(p, str) else blob(p[0], p[1]) for p in pieces)


class Source(object):
    """source as scheduled: may not be seekable, may return short pieces"""
    def __init__(self, data, start, tellable, pieces):
        self.f = io.BytesIO(data)
        self.f.seek(start)
        self.pieces, self.i = pieces, 0
        if tellable:
            self.tell = self.f.tell

    def read(self, n=-1):
        if self.pieces and n is not None and n > 0:
            n = min(n, self.pieces[self.i % len(self.pieces)])
            self.i += 1
        return self.f.read(n)

    def close(self):
        self.f.close()


def segments(raw, start, enc):
    """the gzip members (and uncompressed rest) of a file, by zlib"""
    segs, pos = [], start
    while pos < len(raw):
        if raw[pos:pos + 2] == b'\x1f\x8b':
            d = zlib.decompressobj(31)
            try:
                out = d.decompress(raw[pos:])
            except zlib.error:
                out = None
            if out is not None:
                n = len(raw) - pos - len(d.unused_data)
                segs.append({'gz': True, 'coff': pos, 'clen': n, 'text': enc(out)})
                pos += n
                continue
        segs.append({'gz': False, 'coff': pos, 'clen': len(raw) - pos, 'text': enc(raw[pos:])})
        break
    return segs


def record(r, enc):
    h = r.http_headers
    return {'type': T(r.rec_type), 'fmt': r.format, 'proto': T(r.rec_headers.protocol), 'hdrs': H(r.rec_headers.headers),
            'ctype': T(r.content_type), 'len': -1 if r.length is None else r.length if r.length < 2100000000 else 2147483647,
            'http': {'has': bool(h), 'proto': T(h.protocol) if h else [], 'status': T(h.statusline) if h else [],
                     'hdrs': H(h.headers) if h else []}}


NOREC = {'type': [], 'fmt': '', 'proto': [], 'hdrs': [], 'ctype': [], 'len': 0,
         'http': {'has': False, 'proto': [], 'status': [], 'hdrs': []}}


def event(op, **kw):
    ev = {'op': op, 'kind': '', 'k': 0, 'n': 0, 'via': '', 'how': '', 'out': [], 'exc': '', 'gz': False, 'off': 0,
          'size': 0, 'passed': '', 'nprob': 0, 'rec': NOREC}
    ev.update(kw)
    return ev


class Run(object):
    def __init__(self, s, raw, start, enc):
        self.s, self.enc, self.raw = s, enc, raw
        self.evs = []
        self.it = self.open(Source(raw, start, not s.get('untell'), s.get('pieces')))
        self.recs, self.ext, self.dec, self.over = [], {}, {}, False

    def open(self, src):
        o = self.s['opt']
        cls = {'': ArchiveIterator, 'warc': WARCIterator, 'arc': ARCIterator}[o['fmt']]
        kw = {'no_record_parse': o['norec'], 'verify_http': o['verify'], 'arc2warc': o['a2w'],
              'ensure_http_headers': o['ensure'], 'check_digests': {'off': False, 'on': True, 'log': 'log', 'raise': 'raise'}[
                  self.s.get('chk', 'off')]}
        if self.s.get('bs'):
            kw['block_size'] = self.s['bs']
        return cls(src, **kw)

    def add(self, op, **kw):
        ev = event(op, **kw)
        self.evs.append(ev)
        return ev

    def next(self):
        ev = self.add('next', k=len(self.recs) + 1)
        try:
            r = self.take(len(self.evs) % 3)
            self.recs.append(r)
            ev['kind'], ev['rec'] = 'rec', record(r, self.enc)
            return True
        except StopIteration:
            ev['kind'] = 'stop'
        except Exception as e:
            ev['kind'], ev['exc'] = 'exc', type(e).__name__
            ev['gz'] = 'gzip' in str(e).lower()
        self.over = True
        return False

    def take(self, how):
        """the next record, by next() or a loop"""
        if how == 0:
            return next(self.it)
        if how == 1:
            return next(iter(self.it))
        for r in self.it:
            return r
        raise StopIteration()

    def stream(self, k, via):
        if via == 'raw':
            return self.recs[k - 1].raw_stream
        if k not in self.dec:
            self.dec[k] = self.recs[k - 1].content_stream()
        return self.dec[k]

    def read(self, k, op, via, n):
        ev = self.add(op, k=k, via=via, n=n)
        try:
            f = getattr(self.stream(k, via), 'read' if op == 'read' else 'readline')
            r = (f() if len(self.evs) % 2 else f(-1)) if n < 0 else f(n)
            ev['out'] = self.enc(r)
            return bool(r)
        except Exception as e:
            ev['exc'] = type(e).__name__
            if isinstance(e, AssertionError):
                raise
            return False

    def drain(self, k, op, via, n):
        for _ in range(20000):
            if not self.read(k, op, via, n):
                break
        if not self.evs[-1]['exc']:
            self.add('drained', k=k, via=via)

    def extent(self):
        k = len(self.recs)
        ev = self.add('extent', k=k)
        try:
            ev['off'], ev['size'] = self.it.get_record_offset(), self.it.get_record_length()
            self.ext[k] = (ev['off'], ev['size'])
        except Exception as e:
            ev['exc'] = type(e).__name__

    def verdict(self, k, how=''):
        dc = self.recs[k - 1].digest_checker
        p = dc.passed
        self.add('verdict', k=k, how=how, passed={True: 'pass', False: 'fail', None: 'none'}.get(p, 'odd'), nprob=len(dc.problems))

    def do(self, op):
        k = len(self.recs)
        name = op[0]
        if name in ('read', 'line'):
            self.read(k, name, op[1], op[2])
        elif name == 'drain':
            self.drain(k, op[2], op[1], op[3])
        elif name == 'gather':         # read in pieces, shown as one read
            ev = self.add('read', k=k, via=op[1], n=-1)
            try:
                out, f = b'', self.stream(k, op[1])
                while True:
                    b = f.read(op[2])
                    out += b
                    if not b:
                        break
                ev['out'] = self.enc(out)
            except Exception as e:
                ev['exc'] = type(e).__name__
            else:
                self.add('drained', k=k, via=op[1])
        elif name == 'extent':
            self.extent()
        elif name == 'verdict':
            self.verdict(k)
        elif name == 'early':          # before all is read, maybe
            self.verdict(k, 'early')
        elif name == 'late':           # of an earlier record
            if k - op[1] >= 1:
                self.verdict(k - op[1])
        elif name == 'stale':          # a stream of an earlier record
            # (a record without a length has no stream of its own)
            if k - op[1] >= 1 and self.recs[k - op[1] - 1].length is not None:
                self.read(k - op[1], op[2], op[3], op[4])

    def reopen(self, k, how):
        if k not in self.ext:
            return
        off, size = self.ext[k]
        off += self.shift
        ev = self.add('reopen', k=k, how=how)
        try:
            if how == 'seek':
                f = io.BytesIO(self.raw)
                f.seek(off)
            else:
                f = io.BytesIO(self.raw[off:off + size])
            r = next(self.open(f))
            ev['rec'] = record(r, self.enc)
            ev['out'] = self.enc(r.raw_stream.read())
        except Exception as e:
            ev['exc'] = type(e).__name__


def run(s):
    blobs = Blobs([tuple(p) for part in s['parts'] if not isinstance(part['text'], str)
                   for p in part['text'] if not isinstance(p, str) and not s.get('bytes')])
    raw = L(s.get('before', ''))
    start = len(raw)
    for p in s['parts']:
        d = text(p['text'])
        raw += gz(d, p.get('level', 6)) if p['gz'] else d
    if s.get('append'):
        out = io.BytesIO(raw)
        out.seek(len(raw))
        w = WARCWriter(out, gzip=s['zip'])
        for typ, uri, data in s['append']:
            w.write_record(w.create_warc_record(uri, typ, payload=io.BytesIO(L(data))))
        raw = out.getvalue()
    opt = {'fmt': '', 'a2w': False, 'verify': False, 'norec': False, 'ensure': False}
    opt.update(s.get('opt', {}))
    s['opt'] = opt
    mode = s.get('mode', 'exact')
    base = 0 if s.get('untell') else start
    segs = segments(raw, start, blobs.enc) if mode != 'any' else []
    for g in segs:
        g['coff'] += base - start
    cut = s.get('cut', 0)
    if mode == 'cut':
        cut = min(cut, len(raw)) if isinstance(cut, int) else int(len(raw) * cut)
        given = raw[:start + cut]
    else:
        given = raw
    csegs = segments(given, start, blobs.enc) if mode == 'cut' else []
    chk = s.get('chk', 'off')
    algs, env = [], []
    for a in s.get('algs', []):
        try:
            if hashlib.new(a).digest_size:
                algs.append(a)
        except ValueError:
            pass
    for d in s.get('digs', []):
        for a in algs:
            env.append({'alg': T(a), 'data': blobs.enc(text(d)), 'dig': list(hashlib.new(a, text(d)).digest())})
    case = {'prop': s['prop'], 'segs': segs, 'csegs': csegs, 'opt': opt, 'chk': {'log': 'on'}.get(chk, chk), 'mode': mode,
            'cut': base + cut, 'env': env,
            'algs': [T(a) for a in algs], 'codes': [{'comp': list(L(a)), 'plain': list(L(b))} for a, b in s.get('codes', [])],
            'early': not s.get('dec'), 'dec': bool(s.get('dec')), 'evs': []}
    sys.stderr = open(os.devnull, 'w')
    try:
        r = Run(s, given, start, blobs.enc)
        r.shift = start - base
        case['evs'] = r.evs
        pol = s.get('pol') or [[]]
        for i in range(2000):
            if not r.next():
                break
            for op in (pol[i % len(pol)] if not s.get('once') else pol[i] if i < len(pol) else []):
                r.do(op)
                if r.evs[-1]['exc'] and chk == 'raise':
                    break
            if r.evs[-1]['exc'] and chk == 'raise':
                r.over = True
                break
        r.add('end')
        if s.get('count'):
            r.add('count', n=s['count'])
        for _ in range(s.get('again', 0)):
            r.next()
        for how in s.get('reopen', []):
            for k in list(r.ext):
                r.reopen(k, how)
    finally:
        sys.stderr.close()
        sys.stderr = sys.__stderr__
    return case
