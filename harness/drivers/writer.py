"""Writes records with the real writer (C01, C02, C21)."""
import datetime
import hashlib
import io
import os
import re
import tempfile
from collections import OrderedDict
from core import T, H
from drivers.archive import Blobs, text, L, segments, record, NOREC
from warcio.archiveiterator import ArchiveIterator
from warcio.bufferedreaders import BufferedReader
from warcio.limitreader import LimitReader
from warcio.recordbuilder import RecordBuilder
from warcio.statusandheaders import StatusAndHeaders
from warcio.warcwriter import WARCWriter, BufferWARCWriter


class Plain(object):
    """a stream without tell or seek, returning short pieces"""
    def __init__(self, data, pieces):
        self.f, self.pieces, self.i = io.BytesIO(data), pieces, 0

    def read(self, n=-1):
        if self.pieces and n is not None and n > 0:
            n = min(n, self.pieces[self.i % len(self.pieces)])
            self.i += 1
        return self.f.read(n)

    def readline(self, n=-1):
        return self.f.readline(n)

    def close(self):
        self.f.close()


class NoSeek(Plain):
    def tell(self):
        return self.f.tell()

    def seek(self, *a):
        raise io.UnsupportedOperation('seek')

    def seekable(self):
        return False


class Short(NoSeek):
    def seek(self, *a):
        return self.f.seek(*a)

    def seekable(self):
        return True


def stream(kind, data, pieces, tmp):
    k, pre = kind
    pre = L(pre)
    if k == 'bytes':
        f = io.BytesIO(pre + data)
        f.seek(len(pre))
    elif k == 'plain':
        f = Plain(data, pieces)
    elif k == 'noseek':
        f = NoSeek(pre + data, pieces)
        f.f.seek(len(pre))
    elif k == 'short':
        f = Short(pre + data, pieces)
        f.f.seek(len(pre))
    elif k == 'file':
        f = tempfile.TemporaryFile(dir=tmp)
        f.write(pre + data)
        f.seek(len(pre))
    elif k == 'limit':
        g = io.BytesIO(pre + data + b'beyond')
        g.seek(len(pre))
        f = LimitReader(g, len(data))
    elif k == 'buffered':
        f = BufferedReader(io.BytesIO(data), block_size=7)
    elif k == 'iobuf':
        f = io.BufferedReader(io.BytesIO(pre + data))
        f.read(len(pre))
    return f


class Raw(io.RawIOBase):
    """what reached the output"""
    def __init__(self):
        self.got = bytearray()

    def writable(self):
        return True

    def write(self, b):
        self.got += bytes(b)
        return len(b)


class Sink(object):
    """an output with only write and flush; keeps what is not flushed"""
    def __init__(self):
        self.got, self.held = bytearray(), bytearray()

    def write(self, b):
        self.held += b
        return len(b)

    def flush(self):
        self.got += self.held
        del self.held[:]


def http_filter(f):
    if not f or not (f['drop'] or f['set']):
        return None
    low = [x.lower() for x in f['drop']]

    def func(h):
        if h[0].lower() in low:
            return None
        for n, nn, vv in f['set']:
            if n.lower() == h[0].lower():
                return (nn, vv)
        return h
    return func


def iso(micros, delta):
    t = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None) + datetime.timedelta(seconds=delta)
    return t.strftime('%Y-%m-%dT%H:%M:%S') + ('.%06d' % t.microsecond if micros else '') + 'Z'


# a date without a fraction of a second where there should be one: the clock may have
# been at a whole second (once, not again)
WHOLE = re.compile(rb'WARC/1\.1\r\n(?:[^\r\n]+\r\n)*?WARC-Date: (?!20[12]\d-01-0)[-0-9T:]{19}Z\r\n', re.I)


def run(s):
    tries = []
    case = attempt(s, tries)
    if tries and tries[0]:
        case = attempt(s, [])
    return case


def attempt(s, tries):
    tmp = os.environ['VERIF_SCRATCH']
    specs = {}
    for x in s['recs']:
        for p in x.get('pay') or []:
            if not isinstance(p, str):
                specs[tuple(p)] = 1
    blobs = Blobs(sorted(specs))
    gz = s['gzip']
    ver = s.get('version')
    kw = {'gzip': gz, 'header_filter': http_filter(s.get('filter'))}
    if ver:
        kw['warc_version'] = ver
    outkind = s.get('out', 'bytes')
    sink = None
    if outkind == 'buffer':
        w = BufferWARCWriter(**kw)
        total = lambda: w_all(w)          # noqa
    elif outkind == 'bytes':
        f = io.BytesIO()
        w = WARCWriter(f, **kw)
        total = f.getvalue
    elif outkind == 'iobuf':
        sink = Raw()
        w = WARCWriter(io.BufferedWriter(sink, s.get('bufsize', 1 << 20)), **kw)
        total = lambda: bytes(sink.got)   # noqa
    else:
        sink = Sink()
        w = WARCWriter(sink, **kw)
        total = lambda: bytes(sink.got)   # noqa
    proto = w.warc_version
    micros = proto == 'WARC/1.1'
    build = RecordBuilder(warc_version=ver, header_filter=http_filter(s.get('filter'))) if s.get('builder') else w
    t0 = iso(micros, 0)
    evs, seen, data = [], 0, []
    opened = []

    https, dicts = {}, {}

    def make(i):
        x, http = s['recs'][i], None
        if x.get('http'):
            hs, form, line = [tuple(h) for h in x['http']['hdrs']], x.get('form'), x['http']['status']
            if form == 'lists':
                hs = [list(h) for h in hs]
            elif form == 'bytes':
                hs = [tuple(t.encode('latin-1') if all(ord(c) < 256 for c in t) else t for t in h) for h in hs]
            if form == 'line':
                http = StatusAndHeaders(x['http']['proto'] + ' ' + line, hs, is_http_request=True)
            else:
                http = StatusAndHeaders(line, hs, protocol=x['http']['proto'])
            if x.get('same'):
                # those of a record made before, changed
                http = https[x['same'][0]]
                for n, v in x['same'][1]:
                    http.replace_header(n, v)
            https[i] = http
        if x['kind'] == 'info':
            return build.create_warcinfo_record(x.get('filename'), OrderedDict((n, v) for n, v in x['info']))
        if x['kind'] == 'revisit':
            return build.create_revisit_record(x['uri'], x['digest'], x['ruri'], x['rdate'], http_headers=http,
                                               warc_headers_dict=OrderedDict(map(tuple, x['given'])) if x.get('given') else None)
        k = {}
        if x.get('pay') is not None:
            d = text(x['pay'])
            k['payload'] = stream(x.get('stream', ['bytes', '']), d, x.get('pieces'), tmp)
            opened.append(k['payload'])
            if x.get('known', True):
                k['length'] = len(d)
        elif x.get('nolen') is not None:
            # no payload: a length says nothing
            k['length'] = x['nolen']
        if x.get('ctype'):
            k['warc_content_type'] = x['ctype']
        if x.get('whole'):
            k['warc_headers'] = StatusAndHeaders('', [tuple(h) for h in x['given']], protocol=x.get('proto', proto))
        elif x.get('given'):
            # the same dict for the same headers
            k['warc_headers_dict'] = dicts.setdefault(str(x['given']), OrderedDict(map(tuple, x['given'])))
        return build.create_warc_record(x['uri'], x['type'], http_headers=http, **k)

    def split(b):
        """complete gzip members, or the text; and whether there is more"""
        if not b:
            return [], False
        if not gz:
            return [blobs.enc(b)], False
        segs = segments(b, 0, blobs.enc)
        return [g['text'] for g in segs if g['gz'] and complete(b[g['coff']:g['coff'] + g['clen']])], any(
            not g['gz'] or not complete(b[g['coff']:g['coff'] + g['clen']]) for g in segs)

    def complete(b):
        import zlib
        d = zlib.decompressobj(31)
        d.decompress(b)
        return d.eof

    def hashes(b, pair):
        """blocks of what was written, for the table of digests"""
        texts = [b]
        if gz:
            import gzip
            try:
                texts = [gzip.decompress(b)]
            except Exception:
                texts = []
        for t in texts:
            cut = []
            i = t.find(b'\r\n\r\n')
            while i >= 0 and len(cut) < 14:
                cut.append(i)
                i = t.find(b'\r\n\r\n', i + 1)
            if pair:
                data.extend(t[i + 4:j] for n, i in enumerate(cut) for j in cut[n + 1:])
            for part in t.split(b'WARC/1.')[1:]:
                i = part.find(b'\r\n\r\n')
                if i >= 0 and part.endswith(b'\r\n\r\n'):
                    data.append(part[i + 4:-4])
            i = t.find(b'\r\n\r\n')
            if i >= 0:
                data.append(t[i + 4:-4])
                j = t.find(b'\r\n\r\n', i + 4)
                if j >= 0:
                    data.append(t[j + 4:-4])

    for op in s['ops']:
        if op[0] in ('write', 'pair'):
            ev = {'op': 'write', 'ns': [i + 1 for i in op[1:]], 'texts': [], 'rest': False, 'exc': '', 't0': T(iso(micros, 0)), 't1': []}
            try:
                recs = [make(i) for i in op[1:]]
                if op[0] == 'pair':
                    w.write_request_response_pair(recs[1], recs[0])
                else:
                    w.write_record(recs[0])
            except Exception as e:
                ev['exc'] = type(e).__name__
            now = total()
            ev['texts'], ev['rest'] = split(now[seen:])
            hashes(now[seen:], op[0] == 'pair')
            seen = len(now)
            ev['t1'] = T(iso(micros, 0))
            evs.append(ev)
        elif op[0] == 'contents' and outkind == 'buffer':
            ev = {'op': 'contents', 'texts': [], 'rest': False, 'exc': ''}
            try:
                b = w.get_contents() if op[1] == 'contents' else w.get_stream().read()
                ev['texts'], ev['rest'] = split(b)
            except Exception as e:
                ev['exc'] = type(e).__name__
            evs.append(ev)
    if s.get('back'):
        it = ArchiveIterator(io.BytesIO(total()))
        k = 0
        while True:
            k += 1
            ev = {'op': 'back', 'k': k, 'kind': 'rec', 'rec': NOREC, 'out': [], 't0': T(t0), 't1': T(iso(micros, 0))}
            evs.append(ev)
            try:
                r = next(it)
                ev['rec'], ev['out'] = record(r, blobs.enc), blobs.enc(r.raw_stream.read())
            except StopIteration:
                ev['kind'] = 'stop'
                break
            except Exception:
                ev['kind'] = 'exc'
                break
    for f in opened:
        f.close()
    if not gz:
        tries.append(WHOLE.search(total()))
    elif micros:
        tries.append(WHOLE.search(plain(total())))
    recs = []
    for i, x in enumerate(s['recs']):
        h = x.get('http')
        pay = text(x['pay']) if x.get('pay') is not None else b''
        data.append(pay)
        if x.get('content') is not None:
            data.append(text(x['content']))
        if x['kind'] == 'info':
            data.append(''.join('%s: %s\r\n' % (n, v) for n, v in x['info'] if v).encode('utf-8'))
        pair = [op for op in s['ops'] if op[0] == 'pair' and op[2] == i]
        recs.append({'kind': x['kind'], 'type': T({'info': 'warcinfo', 'revisit': 'revisit'}.get(x['kind'], x.get('type'))), 'uri': T(x.get('uri') or ''),
                     'given': H(x.get('given') or []), 'whole': bool(x.get('whole')), 'proto': T(x.get('proto', proto)),
                     'ctype': T(x.get('ctype') or ''),
                     'http': {'has': bool(h), 'proto': T(h['proto']) if h else [], 'status': T(h['status']) if h else [],
                              'hdrs': H(h['hdrs']) if h else []},
                     'pay': blobs.enc(pay), 'nopay': x.get('pay') is None, 'known': bool(x.get('known', True)) or x.get('pay') is None,
                     'pair': pair[0][1] + 1 if pair else 0, 'info': H([(n, str(v) if v else '') for n, v in x.get('info', [])]),
                     'filename': T(x.get('filename') or ''), 'digest': T(x.get('digest', '')), 'ruri': T(x.get('ruri', '')), 'rdate': T(x.get('rdate', ''))})
    env, have = [], set()
    for d in data + [b'']:
        if d not in have:
            have.add(d)
            env.append({'alg': T('sha1'), 'data': blobs.enc(d), 'dig': list(hashlib.sha1(d).digest())})
    flt = s.get('filter') or {'drop': [], 'set': []}
    return {'prop': s['prop'], 'recs': recs, 'gzip': gz, 'filter': {'drop': [T(x) for x in flt['drop']], 'set': [[T(y) for y in x] for x in flt['set']]},
            'env': env, 'frames': s['prop'] != 'C01', 'evs': evs}


def plain(b):
    import gzip
    try:
        return gzip.decompress(b)
    except Exception:
        return b''


def w_all(w):
    # independent of get_contents
    f = w.out
    pos = f.tell()
    f.flush()
    f.seek(0)
    b = f.read()
    f.seek(pos)
    return b
