"""Runs the commands (C11, C15, C19) in a scratch directory; copies records (C22)."""
import hashlib
import io
import json
import os
import re
import shutil
import sys
import tempfile
from core import T
from drivers.archive import Blobs, Source, text, L, gz, segments
from drivers.writer import http_filter
from warcio.archiveiterator import ArchiveIterator
from warcio.warcwriter import WARCWriter, BufferWARCWriter
from warcio.cli import main

OPT = {'fmt': '', 'a2w': False, 'verify': False, 'norec': False, 'ensure': False}


class Std(io.TextIOWrapper):
    def __init__(self, data=b''):
        io.TextIOWrapper.__init__(self, io.BytesIO(data), encoding='utf-8', newline='\n', write_through=True)


def command(args, stdin=b''):
    """-> exit code (0 if none), exception name, stdout, stderr bytes"""
    old = sys.stdin, sys.stdout, sys.stderr
    sys.stdin, sys.stdout, sys.stderr = Std(stdin), Std(), Std()
    code, exc = 0, ''
    try:
        try:
            main(args)
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Exception as e:
            code, exc = 1, type(e).__name__
        sys.stdout.flush()
        out = sys.stdout.buffer.getvalue()
    finally:
        sys.stdin, sys.stdout, sys.stderr = old
    return code, exc, out


def lines_of(out):
    """index output: list of [[name, value]]; anything odd?"""
    odd = bool(out) and not out.endswith(b'\n')
    res = []
    for line in out.decode('utf-8').split('\n')[:-1]:
        try:
            d = json.loads(line, object_pairs_hook=list)
        except ValueError:
            return res, True
        if not isinstance(d, list) or not all(isinstance(v, str) for _, v in d):
            odd = True
            continue
        res.append([[T(n), T(v)] for n, v in d])
    return res, odd


def classify(msg):
    m = msg.lower()
    if 'block digest' in m:
        return 'block'
    if 'payload digest' in m:
        return 'payload'
    if 'not checked' in m:
        return 'unchecked'
    if 'no digest' in m:
        return 'absent'
    if 'pass' in m:
        return 'pass'
    return 'other'


def said(out, names):
    """check output: what is said about each file"""
    says, odd, cur, ent = {}, False, None, None
    for line in out.decode('utf-8').split('\n'):
        if not line.strip():
            continue
        if line in names:
            cur, ent = names[line], None
            says.setdefault(cur, {'file': cur, 'entries': [], 'broken': False})
            continue
        m = re.match(r'\s+offset (\S+) WARC-Record-ID (.*) (\S*)$', line)
        if cur is None:
            odd = True
        elif m and m.group(1).isdigit():
            ent = {'off': int(m.group(1)), 'id': T(m.group(2)), 'say': []}
            says[cur]['entries'].append(ent)
        elif 'exception' in line.lower() or 'could not' in line.lower():
            says[cur]['broken'] = True
            ent = None
        elif says[cur]['broken'] and ent is None:
            pass
        elif ent is not None:
            ent['say'].append(classify(line))
        else:
            odd = True
    return list(says.values()), odd


def copy_records(o, raw, tmp):
    """-> output, and by record, records read, which were copied, exception"""
    out = io.BytesIO()
    kw = {'no_record_parse': o['opt'].get('norec', False), 'arc2warc': o['opt'].get('a2w', False),
          'ensure_http_headers': o['opt'].get('ensure', False), 'verify_http': o['opt'].get('verify', False), 'check_digests': o.get('chk', False)}
    if o.get('bs'):
        kw['block_size'] = o['bs']
    n, sel = 0, []
    buffer = o.get('buffer')
    wk = {'gzip': o['gzip'], 'header_filter': http_filter(o.get('filter')), 'warc_version': o.get('version')}
    w = BufferWARCWriter(**wk) if buffer else WARCWriter(out, **wk)
    exc, ends = '', [0]
    old, sys.stderr = sys.stderr, io.StringIO()
    try:
        for r in ArchiveIterator(Source(raw, 0, not o.get('untell'), o.get('pieces')), **kw):
            n += 1
            if o['pick'] and not o['pick'][(n - 1) % len(o['pick'])]:
                if n % 2:
                    r.raw_stream.read(3)
                continue
            sel.append(n)
            for what, a, b in o['mods']:
                if what == 'add':
                    r.rec_headers.add_header(a, b)
                elif what == 'set':
                    r.rec_headers.replace_header(a, b)
                elif what == 'del':
                    r.rec_headers.remove_header(a)
                elif r.http_headers:
                    if what == 'hset':
                        r.http_headers.replace_header(a, b)
                    else:
                        r.http_headers.remove_header(a)
            w.write_record(r)
            ends.append(w.out.tell())
    except Exception as e:
        exc = type(e).__name__
    finally:
        sys.stderr = old
    got = w.get_contents() if buffer else out.getvalue()
    return got, [got[a:b] for a, b in zip(ends, ends[1:])], n, sel, exc


def run(s):
    tmp = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    try:
        return run_in(s, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_in(s, tmp):
    blobs = Blobs(sorted({tuple(p) for f in s['files'] for part in f['parts'] if not isinstance(part['text'], str)
                          for p in part['text'] if not isinstance(p, str)}))
    files, paths, raws = [], [], []
    data = []
    for f in s['files']:
        raw = b''
        for p in f['parts']:
            d = text(p['text'])
            raw += gz(d, p.get('level', 6)) if p['gz'] else d
        path = os.path.join(tmp, f['name'])
        there = f.get('there', True)
        if there:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as out:
                out.write(raw)
        files.append({'name': T(os.path.basename(f['name'])), 'there': there, 'segs': segments(raw, 0, blobs.enc) if there else []})
        paths.append(path)
        raws.append(raw)
    evs, out, last = [], None, 0

    def blocks(t):
        """possible blocks and contents in the text of one record"""
        i = t.find(b'\r\n\r\n')
        if i < 0:
            return
        b = t[i + 4:-4]
        data.append(b)
        for sep in (b'\r\n\r\n', b'\n\n', b'\r\n'):
            j = b.find(sep)
            if j >= 0:
                data.append(b[j + len(sep):])

    def ev(op, **k):
        e = {'op': op, 'ins': [], 'fields': [], 'lines': [], 'exc': '', 'odd': False, 'file': 0, 'k': 0, 'off': [], 'mode': '', 'out': [],
             'verbose': False, 'code': 0, 'says': [], 'segs': [], 'count': 0, 't0': [], 't1': [],
             'opt': OPT, 'mods': [], 'filter': {'drop': [], 'set': []}, 'gzip': False, 'n': 0, 'sel': []}
        e.update(k)
        evs.append(e)
        return e

    for op in s['ops']:
        name = op[0]
        if name == 'index':
            _, ins, fields, how = op
            args = ['index'] + (['-f', ','.join(fields)] if fields else [])
            opath = os.path.join(tmp, 'index.out')
            stdin = b''
            if how == 'file':
                args += ['-o', opath]
            if how == 'stdin':
                stdin = raws[ins[0] - 1]
                if len(fields) % 2:
                    args.append('-')
            else:
                args += [paths[i - 1] for i in ins]
            code, exc, text_ = command(args, stdin)
            if how == 'file':
                with open(opath, 'rb') as f:
                    text_ = f.read()
            e = ev('index', ins=ins, fields=[T(x) for x in fields or ['offset', 'warc-type', 'warc-target-uri']], exc=exc or ('exit' if code else ''))
            e['lines'], e['odd'] = lines_of(text_)
        elif name == 'extract':
            _, i, modes = op
            _, _, text_ = command(['index', '-f', 'offset', paths[i - 1]])
            offs = [json.loads(x)['offset'] for x in text_.decode('utf-8').splitlines()]
            for k, off in enumerate(offs, 1):
                for mode in modes:
                    code, exc, got = command(['extract', paths[i - 1], off] + {'all': [], 'headers': ['--headers'], 'payload': ['--payload']}[mode])
                    ev('extract', file=i, k=k, off=T(off), mode=mode, out=blobs.enc(got), exc=exc or ('exit' if code else ''))
        elif name == 'check':
            _, ins, verbose = op
            code, exc, text_ = command(['check'] + (['-v'] if verbose else []) + [paths[i - 1] for i in ins])
            e = ev('check', ins=ins, verbose=verbose, code=code, exc=exc)
            e['says'], e['odd'] = said(text_, {paths[i - 1]: i for i in ins})
        elif name == 'recompress':
            i, verbose = op[1], op[2]
            src = out if i == 0 else paths[i - 1]
            last += 1
            dst = os.path.join(tmp, 'out%d.warc.gz' % last)
            if src is None or not (i or os.path.exists(src)):
                continue
            if op[3:] and op[3]:
                # there already, and longer
                with open(dst, 'wb') as f:
                    f.write(gz(b'WARC/1.0\r\nWARC-Type: resource\r\nContent-Length: 1\r\n\r\nz\r\n\r\n') * 400)
            code, exc, text_ = command(['recompress', src, dst] + (['-v'] if verbose else []))
            m = [x for x in text_.decode('utf-8').split('\n') if dst in x and re.match(r'\D*\d+', x)]
            got = b''
            if os.path.exists(dst):
                with open(dst, 'rb') as f:
                    got = f.read()
            e = ev('recompress', file=i, code=code, exc=exc, segs=segments(got, 0, blobs.enc) if not code else [],
                   count=int(re.search(r'\d+', m[-1].replace(dst, '')).group()) if m else -1)
            if not code:
                import zlib
                pos = 0
                while pos < len(got):
                    d = zlib.decompressobj(31)
                    try:
                        t = d.decompress(got[pos:])
                    except zlib.error:
                        break
                    blocks(t)
                    pos = len(got) - len(d.unused_data)
            out = dst if not code else None
        elif name == 'copy':
            o = op[1]
            got, texts, n, sel, exc = copy_records(o, raws[o['file'] - 1], tmp)
            flt = o.get('filter') or {'drop': [], 'set': []}
            ev('copy', file=o['file'], opt=dict(OPT, **o['opt']), gzip=o['gzip'], n=n, sel=sel, exc=exc, segs=segments(got, 0, blobs.enc),
               mods=[{'what': w, 'name': T(a), 'value': T(b)} for w, a, b in o['mods']],
               filter={'drop': [T(x) for x in flt['drop']], 'set': [[T(y) for y in x] for x in flt['set']]})
            for t in texts:
                for g in segments(t, 0, bytes) if o['gzip'] else [{'text': t}]:
                    blocks(g['text'])
    env, have = [], set()
    algs = s.get('algs', ['sha1'])
    for d in data + [text(d) for d in s.get('digs', [])] + [b'']:
        if d not in have:
            have.add(d)
            for a in algs:
                env.append({'alg': T(a), 'data': blobs.enc(d), 'dig': list(hashlib.new(a, d).digest())})
    return {'prop': s['prop'], 'files': files, 'env': env, 'algs': [T(a) for a in algs],
            'codes': [{'comp': list(L(a)), 'plain': list(L(b))} for a, b in s.get('codes', [])], 'evs': evs}
