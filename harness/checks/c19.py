from core import Check
from gen import Gen, has_blob, raw, S
from checks.c07 import ALGS, C07
from checks.c20 import NEITHER


R1 = 'WARC/1.0\r\nWARC-Type: metadata\r\nWARC-Record-ID: <urn:r1>\r\nContent-Length: 1\r\n\r\na\r\n\r\n'
MULTI = [R1 + R1, '\r\n' + R1 + R1.replace('r1', 'r2') + R1, R1 + 'garbage\r\n']


class C19(Check):
    pid = 'C19'
    driver = 'cli'
    trace = 'TraceCli'
    case_timeout = 40
    technique = ('TLA+ definition of the report over the reference reader and the digest verdicts; the check command is run on '
                 'TLC-enumerated digest situations, random and damaged archives, its exit status and report judged by TLC')
    level_note = ('Every situation of MCDigest (record kind, state of both digests) and random archives, with several inputs, '
                  'missing files, files that are no archives, gzip members with several records and cut-off files, is checked '
                  'by the real command, quietly and verbosely; TLC accepts only the exit status and, file by file, the records '
                  'and kinds of message the specification gives. Trusted: zlib, hashlib, TLC. ')
    assumptions = ['the wording of messages is read by keyword (block digest, payload digest, pass, no digest, not checked)']

    def scenarios(self):
        r = self.rng
        scn = []
        c07 = C07.__new__(C07)
        c07.rng, c07.quick = r, self.quick
        pool = []
        seen = set()
        for g in self.gen('MCDigest', env={'WIDE': '0' if self.quick else '1'}):
            k = repr(sorted(x for x in g['cf'].items() if x[0] not in ('mode', 'norec')))
            if k not in seen:
                seen.add(k)
                s = c07.concrete(g['cf'], [], r)
                pool.append((s['parts'], s['digs']))
        r.shuffle(pool)
        self.notes['digest_situations'] = len(pool)
        for i, p in enumerate(pool):
            files, digs = [], []
            for q in [p] + r.sample(pool, r.randrange(0, 3)):
                files.append({'name': 'f%d.warc.gz' % len(files), 'parts': q[0]})
                digs += q[1]
            scn.append(self.case(files, digs))
        for i in range(500 if self.quick else 6000):
            ge = Gen(r, 0.5 if i % 12 == 0 else 0.0)
            files, digs = [], []
            for j in range(r.choice([1, 1, 2, 3, 4])):
                kind = r.choice(['warc'] * 6 + ['arc'])
                name = r.choice(['f%d.warc', 'with space %d', 'sub/x%d.gz', 'caf\xe9%d.arc']) % j
                k = r.randrange(12)
                if k == 0:
                    files.append({'name': name, 'parts': [], 'there': False})
                    continue
                if k in (1, 4):
                    # no archive, or one that must be compressed record by record
                    files.append({'name': name, 'parts': [{'gz': r.random() < 0.3, 'text': r.choice(NEITHER) if k == 1 else r.choice(MULTI)}]})
                    continue
                if k == 5:
                    x = c07.cut(Gen(r), r)
                    files.append({'name': name, 'parts': x['parts']})
                    digs += x['digs']
                    continue
                recs = [c07.rec(ge, r) if kind == 'warc' else ge.arc(filedesc=(j == 0 and r.random() < 0.5)) for j in range(r.randrange(0, 4))]
                parts = ge.parts(recs, r.random() < 0.6, kind, many=r.choice([0, 0, 0, 0.3]))
                f = {'name': name, 'parts': parts}
                if k == 2 and parts and not has_blob(parts):
                    # cut off, or followed by something else
                    t = parts[-1]['text']
                    n = r.randrange(len(t) + 1)
                    parts[-1] = dict(parts[-1], text=t[:n])
                    self.cutdigs(recs, t[:n])
                elif k == 3:
                    parts.append({'gz': parts[-1]['gz'] if parts else True, 'text': r.choice(['WARC/9\r\n\r\n', 'garbage\n', 'x y z\r\n'])})
                    if not parts[-1]['gz']:
                        parts[-2:] = [{'gz': False, 'text': (parts[-2]['text'] if len(parts) > 1 and isinstance(parts[-2]['text'], str) else '') + parts[-1]['text']}]
                for x in recs:
                    digs += x['digs']
                files.append(f)
            if files:
                scn.append(self.case(files, digs))
        return scn

    def cutdigs(self, recs, t):
        """digests of what is left of a record that is cut off"""
        for x in recs:
            b = raw(x['block']).decode('latin-1')
            c = raw(x['digs'][-1]).decode('latin-1') if x['digs'] else ''
            for n in range(len(b) + 1):
                if t.endswith(b[:n]):
                    x['digs'].append([b[:n]])
            for n in range(len(c) + 1):
                if t.endswith(c[:n]):
                    x['digs'].append([c[:n]])

    def case(self, files, digs):
        r = self.rng
        n = len(files)
        ops = [['check', r.sample(range(1, n + 1), n), r.random() < 0.6]]
        if r.random() < 0.3:
            ops.append(['check', [r.randrange(1, n + 1)], r.random() < 0.5])
        return {'prop': 'C19', 'files': files, 'ops': ops, 'algs': ALGS, 'digs': digs}


CHECK = C19
