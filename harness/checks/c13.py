from capgen import CapGen
from core import Check

NOTE = ('Every run is of the real capture with real sockets against a scripted server; TLC accepts only the bytes, headers, order and pairing that the '
        'specification gives for what the server received and sent, and the data that the application must see. ')


class C13(Check):
    pid = 'C13'
    driver = 'capture'
    trace = 'TraceCapture'
    case_timeout = 60
    technique = ('TLA+ specification of captures (which exchange is recorded where, composed with the writer specification for the two records, and what '
                 'reading a response must give); recorded runs of http.client, urllib, urllib3 and requests over real sockets are judged by TLC')
    level_note = (NOTE + 'Random exchanges: methods, request bodies (bytes, text, files, iterables, pieces), status lines, headers, body framings, interim '
                  'responses, trailers, ways of reading, proxies (plain and tunnel), TLS, IPv6, kept connections, exchanges that overlap in time, bodies around the buffer sizes. '
                  'Trusted: sockets, zlib, hashlib, TLC. ')
    assumptions = ['HTTP headers in the form the writer gives them (others are a known finding)',
                   'http.client.HTTPSConnection and set_tunnel are used through urllib3, as documented']

    def scenarios(self):
        r = self.rng
        scn = []
        for i in range(1800 if self.quick else 12000):
            scn.append(self.one(i, r))
        return scn + self.findings()

    def target(self, r):
        kind = r.choice(['auto', 'auto', 'buffer', 'writer', 'writer', 'path', 'new'])
        kw = {}
        if r.random() < 0.5:
            kw['gzip'] = r.random() < 0.5
        if r.random() < 0.3:
            kw['warc_version'] = r.choice(['1.0', '1.1'])
        return {'kind': kind, 'kw': kw}

    def one(self, i, r):
        ge = CapGen(r, 0.4 if i % 12 == 0 else 0.0)
        filt = r.choice(['none'] * 6 + ['header', 'revisit', 'status', 'skip'])
        ge.pre = filt not in ('revisit', 'status')
        conns = [ge.conn() for _ in range(r.choice([1, 1, 2, 3]))]
        ip = r.random() < 0.8
        ctx = {'target': 1, 'filter': filt, 'ip': ip, 'ipdefault': ip and r.random() < 0.5, 'noargs': r.random() < 0.5}
        ops = [['enter', 1, 1]]
        exs = []
        live = {}            # connection -> exchange in progress
        for c, d in enumerate(conns, 1):
            if r.random() < 0.3:
                ops.append(['open', 1, c])
        todo = r.choice([1, 1, 2, 3, 5])
        dead = set()         # connections that are not used again
        while (todo and len(dead) < len(conns)) or live:
            c = r.randrange(1, len(conns) + 1)
            if c in dead and c not in live:
                continue
            d = conns[c - 1]
            if c in live:
                e, x, steps = live[c]
                ops.append(steps.pop(0))
                if not steps:
                    del live[c]
            elif todo:
                todo -= 1
                x = ge.ex(c, d)
                exs.append(x)
                e = len(exs)
                steps = [['req', 1, e], ['get', 1, e]] + [['read', 1, e, how, n] for how, n in ge.reads(x, d)] + [['close', 1, e]]
                if d['lib'] == 'hc' and r.random() < 0.06 and x['res']['framing'] in ('len', 'chunked') and not ge.big and x['method'] != 'HEAD':
                    x['res']['cut'] = r.choice([1, 2, 5])
                    dead.add(c)
                elif r.random() < 0.06 and len(steps) > 3 and not ge.big:
                    # closed early
                    dead.add(c)
                    del steps[2:-1]
                    if r.random() < 0.5 and d['lib'] == 'hc':
                        steps.insert(2, ['read', 1, e, 'read', 2])
                if r.random() < 0.6:
                    ops += steps
                else:
                    live[c] = (e, x, steps)
        ops.append(['exit', 1, ''])
        return {'prop': 'C13', 'threads': 1, 'targets': [self.target(r)], 'ctxs': [ctx], 'conns': conns, 'exs': exs, 'ops': ops}

    def findings(self):
        out = []
        tag = 'capture-noncanonical-http'
        for head, hdrs in [('HTTP/1.1 200 OK\r\nX-A:b\r\nContent-Length: 1\r\n\r\n', []),
                           ('HTTP/1.1 200 OK\r\nX-A: \xc3\xa9\r\nContent-Length: 1\r\n\r\n', []),
                           ('HTTP/1.1 200 OK\nX-A: b\nContent-Length: 1\n\n', []),
                           ('HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\n', [['X-A', 'b ']])]:
            x = {'n': 1, 'conn': 1, 'method': 'GET', 'target': '/e1x', 'hdrs': hdrs, 'res': {'line': '', 'rawhead': head, 'framing': 'raw', 'body': ['z']}}
            out.append({'prop': 'C13', 'threads': 1, 'targets': [{'kind': 'buffer', 'kw': {'gzip': False}}], 'ctxs': [{'target': 1, 'filter': 'none', 'ip': True}],
                        'conns': [{'lib': 'hc', 'scheme': 'http', 'host': 'example.com', 'port': 80}], 'exs': [x],
                        'ops': [['enter', 1, 1], ['req', 1, 1], ['get', 1, 1], ['read', 1, 1, 'all', -1], ['close', 1, 1], ['exit', 1, '']], 'finding': tag})
        return out


CHECK = C13
