from core import Check, T


class C08(Check):
    pid = 'C08'
    driver = 'headers'
    trace = 'TraceHeaders'
    technique = ('TLA+ model of the header collection explored by TLC; its behaviours replayed into the code and '
                 'every recorded step validated by TLC')
    level_note = ('All operation sequences within the bound are explored by TLC; each is replayed into a real '
                  'collection, as are longer random ones, and TLC accepts the complete list of entries after each '
                  'operation only if it is the specified one. Trusted: TLC; names differ only by ASCII case. ')
    assumptions = ['header names and values are text; names differ only by ASCII case']

    def scenarios(self):
        scn = self.gen('MCHeaders', env={'DEPTH': '3' if self.quick else '4', 'NAMES': '3' if self.quick else '2'})
        self.notes['exhaustive'] = True
        r = self.rng
        names = ['Content-Type', 'content-type', 'CONTENT-TYPE', 'Set-Cookie', 'set-cookie', 'X', 'x',
                 'Content-Length', 'content-length', 'Content-Range', 'Accept-Ranges', 'accept-ranges', 'WARC-Date']
        vals = ['', 'a', 'b: c', 'x; y=z', ' padded ', 'caf\u00e9', '0', '10']
        stats = ['200 OK', '404', '', '0 x', '-1 y', 'abc', '206 Partial Content', '099 z', '30a b', ' 200']
        for i in range(700 if self.quick else 6000):
            init = [[T(r.choice(names)), T(r.choice(vals))] for _ in range(r.randrange(6))]
            ops = []
            for _ in range(r.randrange(1, 12)):
                op = r.choice(['add', 'add', 'replace', 'replace', 'setitem', 'remove', 'delitem', 'range', 'validate', 'code', 'same', 'bool'])
                o = {'op': op, 'name': T(r.choice(names)), 'value': T(r.choice(vals))}
                if op == 'range':
                    o.update(a=r.choice([0, 5, 1000]), n=r.choice([1, 10, 4000]), t=r.choice([10, 5000, 123456789]))
                if op == 'validate':
                    o['value'] = T(r.choice(['204 No Content', '200 OK']))
                if op == 'same':
                    # (nothing is equal to a collection without status line and entries)
                    o['value'] = r.choice([[-1], [-1], [-1], T('200 OK'), T('404')])
                    o['proto'] = r.random() < 0.8
                    o['other'] = r.choice(['copy', 'copy', 'copy', 'case', 'swap', 'short', 'value']) if r.random() < 0.8 else [[T(r.choice(names)), T(r.choice(vals))] for _ in range(r.randrange(1, 3))]
                    ops.append({'op': 'add', 'name': T('Z'), 'value': T('z')})
                ops.append(o)
            s = {'init': init, 'status': T(r.choice(stats)), 'ops': ops, 'form': r.choice(['tuples', 'tuples', 'lists', 'dict', 'gen', 'bytes', 'bdict', 'request'])}
            if s['form'] in ('dict', 'bdict'):
                s['init'] = [list(x) for x in {tuple(n): (n, v) for n, v in init}.values()]
            if s['form'] == 'request':
                s['status'] = T(r.choice(['GET / HTTP/1.1', 'POST /a b HTTP/1.0', 'X ', ' y', 'M  z']))
            scn.append(s)
        return scn


CHECK = C08
