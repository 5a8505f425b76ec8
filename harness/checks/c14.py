from capgen import CapGen, gz, S
from core import Check

PRE = ('WARC/1.0\r\nWARC-Type: resource\r\nWARC-Record-ID: <urn:x:1>\r\nWARC-Date: 2020-01-01T00:00:00Z\r\n'
       'WARC-Target-URI: http://example.com/old\r\nContent-Length: 3\r\n\r\nold\r\n\r\n')
FILTERS = ['none'] * 5 + ['skip', 'status', 'header', 'revisit', 'noreq', 'noresp']


class C14(Check):
    pid = 'C14'
    driver = 'capture'
    trace = 'TraceCapture'
    case_timeout = 60
    technique = ('TLC explores all interleavings of threads, contexts, connections and two-step writing of a TLA+ model of captures (invariants: attribution, '
                 'pairs not interleaved); every complete schedule is replayed into the real code with real threads and sockets, stopped inside a write, and TLC judges the recorded runs')
    level_note = ('The model is exhaustive within small constants (threads, contexts, exchanges, schedule length of the tier) and each of its schedules is run, a sample at the quick tier; '
                  'random longer histories with nested contexts, filters, targets and exits by exceptions beside it. '
                  'Threads are stopped at writes and between client calls, not at every bytecode. Trusted: sockets, zlib, hashlib, TLC. ')
    assumptions = ['a connection belongs to the context in which it was opened, as documented by the existing tests',
                   'one path is captured to by one context at a time']

    def scenarios(self):
        r = self.rng
        q = self.quick
        scn = []
        for env, n in [({'DEPTH': '8', 'THREADS': '2', 'EXS': '2', 'CTXS': '2'}, 1500), ({'DEPTH': '9', 'THREADS': '3', 'EXS': '2', 'CTXS': '2'}, 600)] if q else [
                ({'DEPTH': '9', 'THREADS': '2', 'EXS': '2', 'CTXS': '2'}, 11000), ({'DEPTH': '9', 'THREADS': '3', 'EXS': '3', 'CTXS': '2'}, 12000)]:
            hs = self.gen('MCCapture', env=env)
            self.notes['schedules_%s_threads' % env['THREADS']] = len(hs)
            if len(hs) > n:
                # those with a stop inside a pair first
                hs = r.sample(hs, n)
            for i, g in enumerate(hs):
                scn.append(self.schedule(i, g['h'], r))
        for i in range(1000 if q else 8000):
            scn.append(self.random(i, r))
        return scn

    def target(self, r, kinds, k):
        kind = r.choice(kinds)
        kw = {}
        if r.random() < 0.5:
            kw['gzip'] = r.random() < 0.5
        if r.random() < 0.2:
            kw['warc_version'] = r.choice(['1.0', '1.1'])
        t = {'kind': kind, 'kw': kw}
        if kind in ('path', 'writer') and r.random() < 0.5:
            t['pre'] = PRE if kw.get('gzip') is False else S(gz(PRE.encode('latin-1')))
            t['there'] = True
        if kind == 'new' and r.random() < 0.3:
            t['there'] = True
            t['pre'] = r.choice(['', PRE])
        return t

    def schedule(self, i, h, r):
        ge = CapGen(r)
        ge.pre = False
        nt = max(op[1] for op in h)
        nctx = sum(1 for op in h if op[0] == 'enter')
        ntg = max([op[3] for op in h if op[0] == 'enter'] or [1])
        conns, exs, ops = {}, {}, []
        paused = set()
        ctxs = [None] * nctx
        # only memory targets when a thread is stopped in a write, or several contexts share it
        stops = any(h[k][0] == 'begin' and h[k + 1:k + 2] != [['end', h[k][1], h[k][2]]] for k in range(len(h)))
        active, shared = {}, False
        for op in h:
            if op[0] == 'enter':
                shared = shared or op[3] in active.values()
                active[op[2]] = op[3]
            elif op[0] == 'exit':
                c = max(k for k in active if any(o[0] == 'enter' and o[1] == op[1] and o[2] == k for o in h))
                active.pop(c)
        kinds = ['writer'] if stops or shared else ['writer', 'path', 'auto', 'buffer', 'path', 'new']
        targets = [self.target(r, kinds, k) for k in range(ntg)]
        uses = {}
        for op in h:
            if op[0] == 'enter':
                ip = r.random() < 0.8
                ctxs[op[2] - 1] = {'target': op[3], 'filter': r.choice(FILTERS) if r.random() < 0.3 else 'none', 'ip': ip, 'ipdefault': ip, 'noargs': True}
                uses[op[3]] = uses.get(op[3], 0) + 1
        for k, t in enumerate(targets, 1):
            if uses.get(k, 0) > 1 and t['kind'] == 'new':
                t['kind'] = 'path'
            if uses.get(k, 0) > 1 and t['kind'] == 'auto':
                t['kind'] = 'buffer'
        libs = r.choice([('hc',), ('hc', 'u3s'), ('rq',), ('hc', 'ul', 'rq')])
        nx = {}
        for op in h:
            if op[0] == 'send':
                nx[op[3]] = nx.get(op[3], 0) + 1
        fins = {}
        for k, op in enumerate(h):
            name, t = op[0], op[1]
            if name == 'enter':
                ops.append(['enter', t, op[2]])
            elif name == 'exit':
                ops.append(['exit', t, r.choice(['', '', '', 'Stop', 'BaseStop', 'KeyError'])])
            elif name == 'send':
                c = op[3]
                if c not in conns:
                    conns[c] = ge.conn(('hc', 'u3s') if nx[c] > 1 else libs)
                x = ge.ex(c, conns[c], simple=True)
                x['res'].pop('piece', None)
                if nx[c] > 1:
                    # the connection is kept
                    x['method'] = 'GET'
                    x.pop('body', None)
                    x['res'].update(line='HTTP/1.1 200 OK', framing=r.choice(['len', 'chunked']), close=False)
                    x['res'].pop('sayclose', None)
                exs[op[2]] = x
                ops += [['req', t, op[2]], ['get', t, op[2]]]
            elif name in ('finish', 'begin', 'wait'):
                x = exs[op[2]]
                fin = ['fin', t, op[2], ge.reads(x, conns[x['conn']])]
                if name == 'begin' and h[k + 1:k + 2] != [['end', t, op[2]]]:
                    ops.append(['pause', t, r.choice([1, 1, 2, 3, 4]), 'fin', op[2], fin[3]])
                    paused.add(t)
                else:
                    ops.append(fin)
            elif name == 'end':
                if t in paused:
                    ops.append(['resume', t])
                    paused.discard(t)
        for t in sorted(paused):
            ops.append(['resume', t])
        n = len(exs)
        # the server knows an exchange by number x['n'], given in the order of sending
        return {'prop': 'C14', 'threads': nt, 'targets': targets, 'ctxs': ctxs, 'conns': [conns[k] for k in sorted(conns)],
                'exs': [exs[k] for k in range(1, n + 1)], 'ops': ops}

    def random(self, i, r):
        """one long history of several threads, nothing stopped inside a write"""
        ge = CapGen(r)
        ge.pre = False
        nt = r.choice([1, 1, 2, 3])
        ntg = r.choice([1, 2, 2, 3])
        targets = [self.target(r, ['writer', 'path', 'auto', 'buffer', 'path', 'new'], k) for k in range(ntg)]
        stack = {t: [] for t in range(1, nt + 1)}
        ctxs, conns, exs, ops = [], [], [], []
        owner, busy = [], {}
        busypath = set()
        started, used = set(), set()
        for _ in range(r.choice([6, 12, 20, 30])):
            t = r.randrange(1, nt + 1)
            k = r.random()
            if t in busy and k < 0.6:
                steps = busy[t][1]
                ops.append(steps.pop(0))
                if not steps:
                    del busy[t]
            elif k < 0.2 and len(ctxs) < 6 and len(stack[t]) < 3:
                tg = r.randrange(1, ntg + 1)
                kind = targets[tg - 1]['kind']
                if kind in ('path', 'new') and tg in busypath or kind == 'auto' and tg in started:
                    continue
                ip = r.random() < 0.8
                ctxs.append({'target': tg, 'filter': r.choice(FILTERS), 'ip': ip, 'ipdefault': ip and r.random() < 0.5, 'noargs': r.random() < 0.5})
                ops.append(['enter', t, len(ctxs)])
                if not (kind == 'new' and (targets[tg - 1].get('there') or tg in started)):
                    stack[t].append(tg)
                    if kind in ('path', 'new'):
                        busypath.add(tg)
                else:
                    stack[t].append(0)
                started.add(tg)
            elif k < 0.35 and stack[t]:
                busypath.discard(stack[t].pop())
                ops.append(['exit', t, r.choice(['', '', 'Stop', 'BaseStop', 'KeyError'])])
            elif k < 0.42:
                conns.append(ge.conn())
                owner.append(t)
                ops.append(['open', t, len(conns)])
            elif t not in busy:
                # requests and urllib choose their connections themselves
                mine = [c for c in range(1, len(conns) + 1) if owner[c - 1] == t and not (conns[c - 1]['lib'] in ('rq', 'ul') and c in used)]
                if not mine or r.random() < 0.4:
                    conns.append(ge.conn())
                    owner.append(t)
                    mine = [len(conns)]
                c = r.choice(mine)
                d = conns[c - 1]
                x = ge.ex(c, d, simple=True)
                used.add(c)
                exs.append(x)
                e = len(exs)
                steps = [['req', t, e], ['get', t, e]] + [['read', t, e, how, n] for how, n in ge.reads(x, d)] + [['close', t, e]]
                if r.random() < 0.6:
                    ops += steps
                else:
                    busy[t] = (c, steps)
        for t in list(busy):
            ops += busy[t][1]
        for t in stack:
            while stack[t]:
                stack[t].pop()
                ops.append(['exit', t, ''])
        ops = [o for o in ops]
        return {'prop': 'C14', 'threads': nt, 'targets': targets, 'ctxs': ctxs, 'conns': conns, 'exs': exs, 'ops': ops}


CHECK = C14
