"""Drives StatusAndHeaders through a sequence of operations (C08)."""
from collections import OrderedDict
from core import T, H
from warcio.statusandheaders import StatusAndHeaders


def txt(cps):
    return None if cps == [-1] else ''.join(map(chr, cps))


def run(s):
    kw = {}
    form, status = s.get('form', 'tuples'), txt(s.get('status', []))
    init = [(txt(n), txt(v)) for n, v in s.get('init', [])]
    if form == 'request':
        kw['is_http_request'] = True
    else:
        kw['protocol'] = 'HTTP/1.0'
    given = {'lists': lambda: [list(x) for x in init], 'dict': lambda: OrderedDict(init), 'gen': lambda: (x for x in init),
             'bytes': lambda: [(n.encode('latin-1'), v.encode('latin-1')) for n, v in init],
             'bdict': lambda: OrderedDict((n.encode('latin-1'), v) for n, v in init)}.get(form, lambda: init)()
    h = StatusAndHeaders(status, given, **kw)
    made = {'op': 'made', 'name': T(status), 'value': [], 'form': form, 'proto': True, 'other': []}
    names = sorted({tuple(o['name']) for o in s['ops']} | {tuple(n) for n, _ in s.get('init', [])})
    probes = sorted(set(names) | {tuple(T(txt(list(n)).swapcase())) for n in names} | {(90,)})
    case = {'init': H(init), 'status': T(status), 'evs': []}
    for o in [made] + s['ops']:
        ev = dict(o)
        ev.setdefault('proto', True)
        ev.setdefault('other', [])
        ev['exc'] = ''
        ev['ret'], ev['rb'] = [-1], False
        n, v = txt(o['name']), txt(o['value'])
        try:
            op = o['op']
            if op == 'add':
                h.add_header(n, v)
            elif op == 'replace':
                ev['ret'] = T(h.replace_header(n, v))
            elif op == 'setitem':
                h[n] = v
            elif op == 'remove':
                ev['rb'] = bool(h.remove_header(n))
            elif op == 'delitem':
                del h[n]
            elif op == 'range':
                h.add_range(o['a'], o['n'], o['t'])
            elif op == 'validate':
                ev['rb'] = bool(h.validate_statusline(v))
            elif op == 'same':
                if isinstance(o['other'], str):        # this one's entries, changed in some way
                    hs = list(h.headers)
                    o['other'] = H({'copy': hs, 'case': [(a.swapcase(), b) for a, b in hs], 'swap': hs[::-1], 'short': hs[:-1],
                                    'value': hs[:-1] + [(a, b + 'x') for a, b in hs[-1:]]}[o['other']])
                o['value'] = o['value'] if o['value'] != [-1] else T(h.statusline)
                ev.update(o)
                g = StatusAndHeaders(txt(o['value']), [(txt(a), txt(b)) for a, b in o['other']], protocol=h.protocol + ('' if o['proto'] else 'x'))
                ev['rb'] = h == g
                if (h != g) == ev['rb'] or (g == h) != ev['rb']:
                    ev['exc'] = 'unequal'
            elif op == 'made':
                ev['ret'], ev['rb'] = T(h.protocol), bool(h)
                if form == 'lists' and given and (h.headers is given or given != [list(x) for x in init]):
                    ev['exc'] = 'shared'
            elif op == 'bool':
                ev['rb'] = bool(h)
            elif op == 'code':
                ev['ret'] = T(h.get_statuscode())
        except Exception as e:
            ev['exc'] = type(e).__name__
        ev['hs'] = H(h.headers)
        ev['status'] = T(h.statusline)
        gets = []
        for i, p in enumerate(probes):
            p = ''.join(map(chr, p))
            if i % 3 == 0:
                g, d = h.get_header(p, 'dflt'), 'dflt'
            elif i % 3 == 1:
                g, d = h.get(p), None
            else:
                g, d = h[p], None
            gets.append([T(p), T(d), T(g), p in h])
        ev['gets'] = gets
        case['evs'].append(ev)
    return case
