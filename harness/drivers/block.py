"""Drives parsing and serialising of header blocks (C09)."""
import io
from core import B, T, H
from warcio.statusandheaders import StatusAndHeaders, StatusAndHeadersParser
from warcio.bufferedreaders import BufferedReader
from warcio.limitreader import LimitReader

HTTP = ['HTTP/1.0', 'HTTP/1.1']


def txt(cps):
    return ''.join(map(chr, cps))


def source(kind, raw, bs):
    if kind == 'buffered':
        return BufferedReader(io.BytesIO(raw), block_size=bs)
    if kind == 'limited':
        return LimitReader(BufferedReader(io.BytesIO(raw + b'Beyond: limit\r\n'), block_size=bs), len(raw))
    return io.BytesIO(raw)


def do_parse(raw, prefixes, verify, first=None, kind='bytes', bs=16384):
    ev = {'op': 'parse', 'raw': B(raw), 'first': [-1] if first is None else B(first), 'prefixes': [T(p) for p in prefixes],
          'verify': verify, 'exc': '', 'proto': [], 'status': [], 'hdrs': [], 'total': 0, 'rest': []}
    src = source(kind, raw, bs)
    h = None
    try:
        kw = {} if first is None else {'full_statusline': first}
        h = StatusAndHeadersParser(prefixes, verify).parse(src, **kw)
        ev.update(proto=T(h.protocol), status=T(h.statusline), hdrs=H(h.headers), total=h.total_len)
    except Exception as e:
        ev['exc'] = type(e).__name__
    ev['rest'] = B(src.read())
    return ev, h


def mkfilter(f):
    if not f:
        return None

    def func(h):
        n = h[0].lower()
        for d in f['drop']:
            if txt(d).lower() == n:
                return None
        for a, b, v in f['set']:
            if txt(a).lower() == n:
                return (txt(b), txt(v))
        return h
    return func


def do_ser(h, f):
    ev = {'op': 'serialise', 'proto': T(h.protocol), 'status': T(h.statusline), 'hdrs': H(h.headers),
          'filter': f or {'drop': [], 'set': []}, 'exc': '', 'text': [], 'utf8': [], 'ascii': [], 'buff': []}
    func = mkfilter(f)
    a = [func] if func else []

    def copy():
        return StatusAndHeaders(h.statusline, list(h.headers), h.protocol)
    try:
        ev['text'] = T(h.to_str(*a))
        ev['utf8'] = B(h.to_bytes(*a))
        ev['ascii'] = B(copy().to_ascii_bytes(*a))
        k = copy()
        k.compute_headers_buffer(*a)
        ev['buff'] = B(k.headers_buff)
        if not f and str(h) != h.to_str():
            ev['exc'] = 'str'
    except Exception as e:
        ev['exc'] = type(e).__name__
    return ev


def do_back(h, after):
    ev = {'op': 'back', 'hdrs': H(h.headers), 'status': T(h.statusline), 'exc': '', 'hdrs2': [], 'status2': [], 'rest': [], 'after': B(after)}
    try:
        src = io.BytesIO(h.to_bytes() + after)
        k = StatusAndHeadersParser([h.protocol.upper()] if h.protocol else [], bool(h.protocol)).parse(src)
        ev.update(hdrs2=H(k.headers), status2=T(k.statusline), rest=B(src.read()))
    except Exception as e:
        ev['exc'] = type(e).__name__
    return ev


def run(s):
    evs = []
    if 'raw' in s:
        raw = bytes(s['raw'])
        first = bytes(s['first']) if 'first' in s else None
        ev, h = do_parse(raw, s.get('prefixes', HTTP), s['verify'], first, s.get('src', 'bytes'), s.get('bs', 16384))
        evs.append(ev)
    else:
        h = StatusAndHeaders(txt(s['status']), [(txt(n), txt(v)) for n, v in s['hdrs']], protocol=txt(s['proto']))
    if h is not None:
        if h.protocol:
            evs.append(do_back(h, b'after\n'))
        evs.append(do_ser(h, None))
        if s.get('filter'):
            evs.append(do_ser(h, s['filter']))
    return {'evs': evs}
