"""Drives the stream readers (C05, C06, C17)."""
import io
import zlib
from core import B, T
from drivers.archive import Blobs, text
from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader, ChunkedDataReader
from warcio.limitreader import LimitReader


class Source(object):
    """a source that returns short pieces as scheduled, and counts what it gave"""
    def __init__(self, data, pieces=None, lines=True):
        self.f = io.BytesIO(data)
        self.pieces, self.i, self.consumed = pieces, 0, 0
        if lines:
            self.readline = self._readline

    def _cap(self, n):
        if not self.pieces:
            return n
        p = self.pieces[self.i % len(self.pieces)]
        self.i += 1
        return p if n is None or n < 0 else min(n, p)

    def read(self, n=-1):
        b = self.f.read(self._cap(n))
        self.consumed += len(b)
        return b

    def _readline(self, n=-1):
        b = self.f.readline(-1 if n is None else n)
        self.consumed += len(b)
        return b

    def close(self):
        self.f.close()


# lengths that do not limit: absent, invalid, negative
ODD = [None, -1, 'abc', '', '-5', [], '1.5', -16384]


def gz(data, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


def compress(coding, data, level=6):
    if coding == 'gzip':
        return gz(data, level)
    if coding == 'deflate':
        return zlib.compress(data, level)
    if coding == 'rawdeflate':
        c = zlib.compressobj(level, zlib.DEFLATED, -15)
        return c.compress(data) + c.flush()
    if coding == 'br':
        import brotli
        return brotli.compress(data)
    return data


def call(reader, src, op, n, evs, enc=B):
    ev = {'op': op, 'n': n, 'out': [], 'exc': '', 'rb': False, 'consumed': 0, 'tell': -1, 'first': False}
    try:
        if op == 'next':
            ev['rb'] = bool(reader.read_next_member())
        elif op == 'gather':
            # all of the rest, in reads of n bytes
            parts = []
            while True:
                r = reader.read(n)
                if not r:
                    break
                parts.append(r)
                if len(r) > n or len(parts) > 100000:
                    raise RuntimeError('too much')
            ev['op'], ev['n'], ev['out'] = 'read', -1, enc(b''.join(parts))
        else:
            f = getattr(reader, op)
            # -1: alternately as no argument, None and a negative number
            if n < 0:
                k = len(evs) % 3
                r = f() if k == 0 else f(None) if k == 1 else f(-1)
            else:
                r = f(n)
            ev['out'] = enc(r) if isinstance(r, (bytes, bytearray)) else [-1]
    except Exception as e:
        ev['exc'] = type(e).__name__
    if src is not None:
        ev['consumed'] = src.consumed
    if isinstance(reader, LimitReader):
        t = reader.tell()
        ev['tell'] = t if isinstance(t, int) and 0 <= t else 999999999
    evs.append(ev)
    return ev


def drain(reader, src, evs, next_members=0, how=('read', -1), enc=B):
    """read until nothing comes; then the next members the same way"""
    for _ in range(20000):
        ev = call(reader, src, how[0], how[1], evs, enc)
        if ev['exc']:
            return
        if not ev['out']:
            break
    evs.append({'op': 'finish', 'n': 0, 'out': [], 'exc': '', 'rb': False, 'consumed': 0, 'tell': -1, 'first': False})
    if next_members:
        ev = call(reader, src, 'next', 0, evs)
        if ev['rb']:
            drain(reader, src, evs, next_members - 1, how)


def run(s):
    case = {'kind': s['kind'], 'prop': s['prop'], 'members': [], 'all': bool(s.get('all')), 'raw': [],
            'raising': bool(s.get('raising')), 'te': T(s.get('te', '')), 'ce': T(s.get('ce', '')), 'comp': [],
            'plain': [], 'limits': [], 'exact': s.get('exact', True), 'evs': []}
    evs = case['evs']
    src = None
    if s['kind'] == 'buffered':
        ms = [bytes(m) for m in s['ms']]
        case['members'] = [B(m) for m in ms]
        if s.get('as') == 'plain':
            raw = b''.join(ms)
        else:
            lv = s.get('levels', [6])
            raw = b''.join(m if (i in s.get('rawms', [])) else compress(s.get('as', 'gzip'), m, lv[i % len(lv)])
                           for i, m in enumerate(ms))
        src = Source(raw, s.get('pieces'), lines=False)
        kw = dict(block_size=s['bs'])
        if s.get('all'):
            kw['read_all_members'] = True
        dt = s.get('decomp')
        if dt == 'default':
            r = DecompressingBufferedReader(src, **kw)
        elif dt == 'set':
            r = BufferedReader(src, **kw)
            r.set_decomp(s['set'])
        else:
            r = BufferedReader(src, decomp_type=dt, **kw)
        for o in s['ops']:
            if o['op'] == 'next' and (not evs or evs[-1]['out'] or evs[-1]['op'] == 'next'):
                # only at the end of a member
                drain(r, src, evs)
                call(r, src, 'next', 0, evs)
            else:
                call(r, src, o['op'], o['n'], evs)
        drain(r, src, evs, next_members=0 if s.get('all') or s.get('as', 'gzip') != 'gzip' else 20, how=s.get('how', ('read', -1)))
        r.close()
    elif s['kind'] == 'body':
        enc = B
        if 'comp' in s:
            plain = bytes(s['plain'])
            comp = compress(s['comp'], plain, s.get('level', 6))
            case['comp'], case['plain'] = B(comp), B(plain)
            if 'chunk' in s['te'].lower() and not s.get('notchunked'):
                raw, p = b'', 0
                for k in s['chunks']:
                    d = comp[p:p + k]
                    p += k
                    if d:
                        raw += (s.get('fmt', '%x') % len(d)).encode() + s.get('ext', '').encode() + b'\r\n' + d + b'\r\n'
                if comp[p:]:
                    raw += b'%x\r\n' % len(comp[p:]) + comp[p:] + b'\r\n'
                raw += b'0\r\n' + s.get('trailer', '').encode() + b'\r\n'
            else:
                raw = comp
            if 'cut' in s:
                raw = raw[:int(len(raw) * s['cut'])]
        elif 'pieces' in s:
            raw = text(s['pieces'])
            enc = Blobs([tuple(p) for p in s['pieces'] if not isinstance(p, str)]).enc
        else:
            raw = bytes(s['raw'])
        case['raw'] = enc(raw)
        if s.get('via') == 'record':
            from warcio.archiveiterator import ArchiveIterator
            h = b'HTTP/1.1 200 OK\r\n'
            if s.get('te'):
                h += b'Transfer-Encoding: ' + s['te'].encode() + b'\r\n'
            if s.get('ce'):
                h += b'Content-Encoding: ' + s['ce'].encode() + b'\r\n'
            blk = h + b'\r\n' + raw
            rec = (b'WARC/1.0\r\nWARC-Type: response\r\nWARC-Target-URI: http://x/\r\nContent-Length: %d\r\n\r\n' % len(blk)
                   + blk + b'\r\n\r\n')
            data = gz(rec + b'') + gz(rec) if s.get('gz') else rec + rec
            it = ArchiveIterator(io.BytesIO(data), block_size=s.get('bs', 16384))
            record = next(it)
            r = record.content_stream()
        else:
            under = Source(raw, s['short']) if s.get('short') else io.BytesIO(raw)
            if s.get('bs'):
                under = BufferedReader(under, block_size=s['bs'])
            kw = {}
            if s.get('raising'):
                kw['raise_exceptions'] = True
            if s.get('ce'):
                kw['decomp_type'] = s['ce']
            if s['te'].lower() == 'chunked':
                r = ChunkedDataReader(under, **kw)
            else:
                r = BufferedReader(under, decomp_type=s.get('ce') or None)
        for o in s['ops']:
            if evs and evs[-1]['exc']:
                break
            call(r, None, o['op'], o['n'], evs, enc)
        if not (evs and evs[-1]['exc']):
            drain(r, None, evs, how=s.get('how', ('read', -1)), enc=enc)
    elif s['kind'] == 'limit':
        raw = bytes(s['raw'])
        case['raw'] = B(raw)
        src = Source(raw, s.get('pieces'))
        r = src
        for i, lim in enumerate(s['limits']):
            if i == 0 and s.get('direct') and isinstance(lim, int) and lim >= 0:
                r = LimitReader(r, lim)
            else:
                r = LimitReader.wrap_stream(r, lim)
            try:
                v = int(lim)
                case['limits'].append(v if v >= 0 else -1)
            except (ValueError, TypeError):
                case['limits'].append(-1)
        for o in s['ops']:
            if o['op'] == 'wrap':
                was = isinstance(r, LimitReader)
                lim = o['n'] if o['n'] >= 0 else ODD[o.get('odd', len(evs)) % len(ODD)]
                if o['n'] >= 0 and o.get('text'):
                    lim = str(lim)
                exc = ''
                try:
                    r = LimitReader.wrap_stream(r, lim)
                except Exception as e:
                    exc = type(e).__name__
                evs.append({'op': 'wrap', 'n': o['n'], 'out': [], 'exc': exc, 'rb': False, 'consumed': 0,
                            'tell': r.tell() if isinstance(r, LimitReader) else -1,
                            'first': isinstance(r, LimitReader) and not was})
            else:
                call(r, src, o['op'], o['n'], evs)
        drain(r, src, evs, how=s.get('how', ('read', 7)))
        call(r, src, 'readline', -1, evs)
        call(r, src, 'read', -1, evs)
    return case
