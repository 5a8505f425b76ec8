import zlib
from core import Check, seeded_bytes


def lines_data(r, n):
    """data of n bytes with lines of irregular length"""
    out = bytearray()
    while len(out) < n:
        k = r.choice([0, 1, 2, 5, 17, 60, 200, 3000])
        out += bytes(r.choice(b'abcdefgh \r\t\x00\xff') for _ in range(min(k, n))) + b'\n'
    return bytes(out[:n])


def rand_ops(r, big, k=None):
    ops = []
    ns = [-1, 0, 1, 2, 3, 7, 16, 63, 64, 65, 1000] + ([16383, 16384, 16385, 20000] if big else [])
    for _ in range(k if k is not None else r.randrange(0, 9)):
        op = r.choice(['read', 'readline', 'readline'])
        n = r.choice(ns)
        ops.append({'op': op, 'n': n})
    return ops


class C05(Check):
    pid = 'C05'
    driver = 'reader'
    trace = 'TraceReader'
    technique = 'TLC model of the reader refined to an abstract stream; behaviours replayed and traces validated by TLC'
    level_note = ('The reader model is explored exhaustively by TLC within small constants (block sizes, members, '
                  'operation sequences of the tier) and refines the abstract stream; every behaviour is replayed '
                  'into the real readers, with random larger data (up to 40 kB, all codings, short sources) beside '
                  'it, and TLC accepts each recorded call only if it is the step the specification allows. '
                  'Trusted: zlib/brotli to make inputs; TLC. ')
    assumptions = ['zlib and brotli compress correctly (they make the inputs)',
                   'sources return at least one byte until their end']

    def scenarios(self):
        r = self.rng
        scn = []
        for g in self.gen('MCBuffered', env={'DEPTH': '2', 'WIDE': '0'} if self.quick else {'DEPTH': '2', 'WIDE': '1'}):
            s = {'kind': 'buffered', 'prop': 'C05', 'ms': g['ms'], 'all': g['all'], 'bs': g['bs'],
                 'ops': [o for o in g['ops']]}
            if g['kind'] == 'none':
                s.update({'as': 'plain', 'decomp': None})
            elif g['kind'] == 'plain':
                s.update({'as': 'plain', 'decomp': 'default'})
                if g['errAt'] == 2:
                    # the first byte alone could start gzip data
                    s['ms'] = [[31] + g['ms'][0][1:]] if len(g['ms'][0]) > 1 else g['ms']
            else:
                s['decomp'] = 'default'
            scn.append(s)
        for i in range(350 if self.quick else 3000):
            n = r.choice([0, 1, 2, 10, 100, 1000, 3000])
            coding = r.choice(['plain', 'gzip', 'gzip', 'deflate', 'rawdeflate', 'br'])
            k = r.choice([1, 1, 2, 3, 4]) if coding == 'gzip' else 1
            ms = [list(lines_data(r, r.choice([n, 0, 1, n // 2]))) for _ in range(k)]
            s = {'kind': 'buffered', 'prop': 'C05', 'ms': ms, 'as': coding,
                 'bs': r.choice([1, 2, 3, 5, 7, 10, 18, 20, 64, 1000, 16384]),
                 'ops': rand_ops(r, False), 'levels': [r.choice([0, 1, 9]) for _ in range(3)]}
            s['decomp'] = {'plain': r.choice([None, 'default', 'gzip', 'GZIP']), 'gzip': r.choice(['default', 'gzip', 'set']),
                           'deflate': 'deflate', 'rawdeflate': 'deflate', 'br': 'br'}[coding]
            if s['decomp'] not in (None, 'default', 'set') and r.random() < 0.3:
                s['decomp'] = r.choice([s['decomp'].upper(), s['decomp'].title()])
            if s['decomp'] == 'set':
                s['set'] = 'gzip'
            if coding == 'plain' and r.random() < 0.35:
                # announced as deflate or brotli; begins with what neither can begin with
                s['decomp'] = r.choice(['deflate', 'Deflate', 'br'])
                s['ms'] = ms = [list((bytes(r.choice(b'fgnovw') for _ in range(2)) if s['decomp'] != 'br' else b'\x11') + bytes(ms[0]))]
            if coding == 'plain' and s['decomp'] and ms[0][:2] == [31, 139]:
                ms[0][0] = 32
            if coding == 'gzip':
                s['all'] = r.random() < 0.4
                if k > 1 and r.random() < 0.3:
                    # trailing data that is not compressed
                    ms[-1] = list(b'trailing\nnot gzip' + bytes(ms[-1][:50]))
                    s['rawms'] = [k - 1]
            if r.random() < 0.4:
                s['pieces'] = [r.choice([1, 2, 3, 10, 100]) for _ in range(r.randrange(1, 4))]
            if r.random() < 0.5:
                s['how'] = r.choice([('read', 1000), ('readline', -1), ('read', 333), ('readline', 100)])
            self.block_edge(s, r)
            scn.append(s)
        # data around the default block size
        for i in range(16 if self.quick else 100):
            n = r.choice([16383, 16384, 16385, 32768, 32769, 40000])
            coding = ['plain', 'gzip', 'deflate', 'rawdeflate', 'br'][i % 5]
            d = lines_data(r, n)
            s = {'kind': 'buffered', 'prop': 'C05', 'ms': [list(d)], 'as': coding, 'bs': 16384,
                 'ops': rand_ops(r, True, 5), 'levels': [0 if i % 2 else 6], 'how': ('read', 16384),
                 'decomp': {'plain': None, 'gzip': 'default', 'deflate': 'deflate', 'rawdeflate': 'deflate', 'br': 'br'}[coding]}
            scn.append(s)
        return scn

    def block_edge(self, s, r):
        """sometimes make a block end exactly at a member end"""
        if s['as'] == 'gzip' and r.random() < 0.3 and not s.get('rawms'):
            from drivers_util import gz
            s['bs'] = len(gz(bytes(s['ms'][0]), s['levels'][0]))


CHECK = C05
